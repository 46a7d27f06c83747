from . import w_routing, w_history, w_api, w_file, w_map, w_meta, w_report

PROPS = {k: {"run": w_routing.run} for k in w_routing.ASPECT}
PROPS.update({
    "C04": {"run": w_history.run_c04},
    "C05": {"run": w_history.run_c05},
    "C06": {"run": w_history.run_c06},
    "C19": {"run": w_history.run_c19, "pristine": True},
    "C14": {"run": w_api.run_c14},
    "C15": {"run": w_api.run_c15},
    "C16": {"run": w_api.run_c16},
    "C22": {"run": w_api.run_c22},
})
PROPS.update({
    "C17": {"run": w_file.run_c17},
})
PROPS.update({
    "C18": {"run": w_meta.run_c18},
    "C20": {"run": w_meta.run_c20},
    "C21": {"run": w_map.run_c21},
})
PROPS.update({
    "C23": {"run": w_report.run_c23},
})
