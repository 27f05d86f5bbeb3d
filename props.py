"""Which scenarios decide which property, and what the check of each property rests on."""
PROPS = {
    "C01": {"scen": ["tp", "rd"]},
    "C02": {"scen": ["mtx", "cnd", "tp"]},
    "C03": {"scen": ["mtx", "cnd", "rd", "tp"]},
    "C04": {"scen": ["cnd"]},
    "C05": {"scen": ["tp"]},
    "C06": {"scen": ["rd"]},
    "C07": {"scen": ["rd", "tp", "shut"]},
    "C08": {"scen": ["rd", "shut", "rpc", "prpc", "log", "cfg"]},
    "C09": {"scen": ["mtx", "cnd", "tp", "rd", "shut", "ev", "dm", "rpc", "cfg"]},
    "C10": {"scen": ["dm"]},
    "C11": {"scen": ["dm"]},
    "C12": {"scen": ["rpc"]},
    "C13": {"scen": ["prpc"]},
    "C14": {"scen": ["cfg"]},
    "C15": {"scen": ["wr"]},
    "C16": {"scen": ["log"]},
    "C17": {"scen": ["dc"]},
    "C18": {"scen": ["fl"]},
    "C19": {"scen": ["ev"]},
    "C20": {"scen": ["rdalloc", "rd", "tp", "ref", "cfg"]},
    "C21": {"scen": ["id"]},
    "C25": {"scen": ["res"]},
    "C26": {"scen": ["rm"]},
    "C27": {"scen": ["th"]},
}
NOTES = {}
NOT_APPLICABLE = {
    "C22": "Pure function of its input: no schedule, fault, clock or second party influences it, so simulation adds nothing over input testing.",
    "C23": "Pure function of its input: formatting and parsing involve no schedule, fault or second party.",
    "C24": "Pure function of its input: matching a string involves no schedule, fault or second party.",
}
