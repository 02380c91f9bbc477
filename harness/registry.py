"""Which functions decide which property: 'module.function module.function'."""
import importlib

CHECKS = {
    "P01": "storage.p01", "P02": "storage.p02_storage index.p02_index", "P03": "storage.p03",
    "P04": "storage.p04", "P05": "storage.p05_storage index.p05_index", "P06": "storage.p06",
    "P07": "index.p07", "P08": "index.p08", "P09": "index.p09", "P10": "index.p10",
    "P11": "index.p11_index lives.p11_rest", "P12": "index.p12_index lives.p12_rest", "P13": "persist.p13", "P14": "persist.p14",
    "P15": "conc.p15", "P16": "batch.p16", "P17": "conc.p17 batch.p17_parallel",
    "P18": "quant.p18", "P19": "quant.p19",
    "P20": "chunk.p20", "P21": "clean.p21", "P22": "pipeline.p22", "P23": "registry.p23", "P24": "embed.p24",
    "P29": "factory.p29", "P30": "helpers.p30", "P31": "similarity.p31", "P32": "validate.p32", "P33": "tools.p33", "P34": "tools.p34",
    "P35": "document.p35",
    "P36": "stats.p36", "P37": "logging.p37",
    "P25": "index.p25", "P26": "index.p26", "P27": "index.p27", "P28": "index.p28",
}


def run(ck):
    import valori_env
    names = CHECKS[ck.pid].split()
    mods = [importlib.import_module("checks_" + n.split(".")[0]) for n in names]
    valori_env.check_location()
    for m, n in zip(mods, names):
        getattr(m, n.split(".")[1])(ck)
