"""Property id -> module holding its parts."""
REGISTRY = {
    "P01": "checks.reader", "P02": "checks.reader", "P03": "checks.reader",
    "P04": "checks.numeric", "P05": "checks.numeric", "P06": "checks.numeric", "P07": "checks.numeric",
    "P08": "checks.numeric",
    "P09": "checks.collections", "P10": "checks.collections", "P11": "checks.collections", "P12": "checks.collections",
    "P13": "checks.collections",
    "P16": "checks.strings", "P17": "checks.strings", "P18": "checks.strings",
 "P14": "checks.buffers", "P15": "checks.buffers",
 "P21": "checks.macros", "P23": "checks.dispatch",
 "P22": "checks.modules",
 "P38": "checks.cli", "P40": "checks.cli", "P30": "checks.io", "P31": "checks.io", "P32": "checks.io",
 "P26": "checks.gc", "P27": "checks.gc",
 "P28": "checks.images", "P36": "checks.symbols", "P24": "checks.big",
 "P25": "checks.api", "P29": "checks.asm",
 "P19": "checks.programs", "P20": "checks.programs",
 "P33": "checks.library", "P34": "checks.library", "P35": "checks.library", "P37": "checks.library", "P39": "checks.library",
 "P41": "checks.library", "P42": "checks.net", "P43": "checks.term",
}
