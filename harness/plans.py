"""For every property: design models, runs on the code, trace specification, situations that must be met."""

COVER = {
    41: "root in (0, 90]", 42: "root in brake interval", 43: "root in (90, 180)", 44: "no interval", 45: "indeterminate end",
    46: "momentum region", 47: "Buhl region", 48: "near Buhl singularity", 49: "brake region", 50: "parked sections",
    51: "station at hub", 52: "station at tip", 53: "axisymmetric rotor", 54: "four sectors", 55: "more sectors",
    56: "two Reynolds iterations", 57: "wind-only sections", 58: "huge induction", 59: "table airfoils", 60: "scaled rotors",
    63: "repeated calls", 64: "same call on another object", 65: "same condition in another batch", 66: "calls after an inverse design",
    67: "returned objects looked at again", 68: "same call with and without derivatives", 71: "same call in a process of its own",
    69: "Jacobian entries compared", 70: "entries on rough ground", 72: "refused configurations", 73: "parked Jacobians", 74: "coefficient Jacobians",
    75: "axisymmetric Jacobians", 76: "Jacobians of zero outputs", 77: "batch Jacobians",
    78: "arrays of vectors", 79: "there and back", 80: "in-place operators", 81: "angle used again",
    82: "Reynolds number between tables", 83: "tabulated Reynolds number", 84: "Reynolds number outside", 85: "tables with breakpoints",
    86: "data reaching far below", 87: "data needing the inner segment", 88: "extrapolated moments", 89: "no moments to extrapolate",
    90: "stalling polars", 91: "cylinders", 92: "unsteady tables",
    93: "damaged files", 94: "several tables", 95: "files without moments", 96: "default output names", 97: "output over the input",
    98: "commands on results of commands", 99: "common angles asked for",
    31: "tables of two or three angles", 32: "smoothing in use", 33: "curved near tabulated points", 34: "slopes where coefficients are constant",
    35: "Reynolds slopes", 36: "single Reynolds number tables", 37: "design points of cylinders", 38: "searched design points", 39: "moments returned", 40: "tables refused",
    61: "inverse designs", 62: "inverse designs at airfoil coefficients",
    101: "component run again with the same inputs", 102: "component run after its inputs changed", 103: "twists beyond the cap",
    104: "stations designed for stall margin", 105: "smoothed twists", 106: "thick root stations", 107: "contradictory twist options", 108: "given twists",
    109: "component Jacobians",
    111: "steps while another process is in its run", 112: "runs without a result", 113: "runs of a process that was killed", 114: "runs with leftovers of their own",
    115: "runs ending inside another run", 116: "runs of a process that has run before",
    117: "curves of several Reynolds numbers in a figure", 118: "figures of the user open", 119: "plots with figures already open", 120: "commands that plot",
}
CFG, SOL = "models/M_Config", "models/M_Solver"
TR = "traces/T_Rotor"


def rotor(mode, n, **k):
    return dict(driver="drv_rotor", mode=mode, n=n, model=CFG, trace=TR, **k)


SES = "models/M_Session"
STE = "models/M_Stencil"


def jac(mode, n, **k):
    return dict(driver="drv_jac", mode=mode, n=n, model=CFG, trace="traces/T_Jac", **k)

FRA, VEC = "models/M_Frames", "models/M_Vectors"


def fra(mode, n):
    return dict(driver="drv_frames", mode=mode, n=n, model=FRA if mode == "chain" else VEC, trace="traces/T_Frames")


POL, EXT, STA = "models/M_Polar", "models/M_Extrap", "models/M_Stall"
PLT = "models/M_Plot"


def pol(mode, n, m=POL):
    return dict(driver="drv_polar", mode=mode, n=n, model=m, trace="traces/T_Polar")


FIL, CLI = "models/M_File", "models/M_Cli"


def fil(mode, n, m=FIL, **k):
    return dict(driver="drv_file", mode=mode, n=n, model=m, trace="traces/T_File", **k)


AIR = "models/M_Airfoil"


def air(mode, n, **k):
    return dict(driver="drv_airfoil", mode=mode, n=n, model=AIR, trace="traces/T_Airfoil", **k)


FLP, FLS = "models/M_Flap", "models/M_FlapS"
COM = "models/M_Comp"


def com(mode, n):
    return dict(driver="drv_comp", mode=mode, n=n, model=COM, trace="traces/T_Comp")


PLANS = {
    "C27": dict(models=[FLP, FLS], runs=[dict(driver="drv_flap", mode="multi", n=400, model=FLP, trace="traces/T_Flap", deep=6),
                                         dict(driver="drv_flap", mode="serial", n=216, model=FLS, trace="traces/T_Flap", deep=4)],
                cover=[111, 112, 113, 114, 115, 116]),
    "C24": dict(models=[COM], runs=[com("geometry", 400), com("loads", 400)], cover=[101, 102, 109]),
    "C25": dict(models=[COM], runs=[com("evaluate", 400)], cover=[101, 102, 109]),
    "C26": dict(models=[COM], runs=[com("twist", 400)], cover=[101, 102, 103, 104, 105, 106, 107, 108]),
    "C14": dict(models=[AIR], runs=[air("table", 2400)], cover=[31, 32, 33, 34, 35, 36, 39, 40]),
    "C15": dict(models=[AIR], runs=[air("design", 480, filter=lambda s: s["cfg"]["kind"] == "dense"), air("design", 256, filter=lambda s: s["cfg"]["kind"] == "sparse")],
                cover=[37, 38]),
    "C20": dict(models=[FIL], runs=[fil("read", 480), fil("read", 320, filter=lambda s: s["damage"] == "none"), fil("roundtrip", 400)], cover=[93, 94, 95]),
    "C28": dict(models=[CLI], runs=[fil("cli", 320, CLI, deep=8)], cover=[96, 97, 98, 99, 120]),
    "C31": dict(models=[PLT], runs=[dict(driver="drv_plot", mode="plots", n=240, deep=1, model=PLT, trace="traces/T_Plot")], cover=[117, 118, 119]),
    "C16": dict(models=[POL], runs=[pol("ops", 3200)], cover=[]),
    "C17": dict(models=[POL], runs=[pol("ops", 3200)], cover=[82, 83, 84]),
    "C18": dict(models=[POL], runs=[pol("correct", 800)], cover=[]),
    "C19": dict(models=[EXT], runs=[pol("extrap", 884, EXT)], cover=[86, 87, 88, 89]),
    "C21": dict(models=[STA], runs=[pol("unsteady", 1600, STA), pol("table", 800, STA)], cover=[85, 90, 91, 92]),
    "C22": dict(models=[FRA], runs=[fra("chain", 1344)], cover=[78, 79]),
    "C23": dict(models=[FRA, VEC], runs=[fra("chain", 672), fra("ops", 4000)], cover=[78, 80, 81]),
    "C08": dict(models=[SES], runs=[dict(driver="drv_session", mode="history", n=480, model=SES, trace="traces/T_Session")],
                cover=[63, 64, 65, 66, 67, 68, 71]),
    "C09": dict(models=[STE, CFG], runs=[jac("section", 640), jac("sectionparked", 160), jac("inverse", 48)], cover=[69, 73, 78]),
    "C10": dict(models=[STE, CFG], runs=[jac("rotor", 160), jac("parked", 64)], cover=[69, 73, 74, 75, 76, 77]),
    "C11": dict(models=[CFG, SES], runs=[jac("section", 160), jac("sectionparked", 64), jac("rotor", 64), jac("refuse", 96),
                dict(driver="drv_session", mode="history", n=160, model=SES, trace="traces/T_Session")], cover=[68, 72, 73]),
    "C01": dict(models=[CFG, SOL], runs=[rotor("bem", 640), rotor("buhl", 200), rotor("table", 120), rotor("parked", 32)], cover=[46, 47, 48, 49, 59, 56, 50]),
    "C02": dict(models=[CFG, SOL], runs=[rotor("bem", 480), rotor("table", 80)], cover=[41, 42, 43]),
    "C03": dict(models=[CFG], runs=[rotor("bem", 320), rotor("table", 80), rotor("parked", 40)], cover=[46, 47, 50, 56]),
    "C04": dict(models=[CFG], runs=[rotor("null", 400), rotor("array", 16, parts=1)], cover=[57]),
    "C05": dict(models=[CFG], runs=[rotor("eval", 160)], cover=[53, 54, 55]),
    "C06": dict(models=[CFG], runs=[rotor("eval", 160)], cover=[53, 54, 55]),
    "C07": dict(models=[CFG], runs=[rotor("eval", 120), rotor("eval", 40, filter=lambda s: s["tilt0"] and s["yaw0"] and s["shear0"])],
                cover=[53, 54, 55]),
    "C12": dict(models=[CFG], runs=[rotor("parked", 120)], cover=[50]),
    "C13": dict(models=[CFG], runs=[rotor("inverse", 200)], cover=[61, 62]),
    "C29": dict(models=[CFG], runs=[rotor("null", 240), rotor("bem", 80), rotor("parked", 24)], cover=[51, 52, 57]),
    "C30": dict(models=[CFG], runs=[rotor("scale", 240)], cover=[60]),
}
