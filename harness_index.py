INDEX = {
    "C01": ["h_consts"],
    "C02": ["h_consts"],
    "C03": ["h_consts"],
    "C04": ["h_metrics"],
    "C05": ["h_metrics"],
    "C06": ["h_backtest"], "C07": ["h_backtest"], "C08": ["h_backtest"],
    "C09": ["h_detconsts"], "C10": ["h_detconsts"],
}
INDEX["C11"] = ["h_cusum"]
INDEX["C12"] = ["h_forecast"]
INDEX["C13"] = ["h_ensemble"]
INDEX["C14"] = ["h_cusummodel"]
INDEX["C15"] = ["h_rolling"]
INDEX["C16"] = ["h_statsig"]
INDEX["C17"] = ["h_outlier"]
INDEX["C18"] = ["h_mk"]
INDEX["C19"] = ["h_decomp"]
INDEX["C20"] = ["h_prophet"]
INDEX["C21"] = ["h_prophetmodel"]
INDEX["C22"] = ["h_thm"]
INDEX["C23"] = ["h_mlar"]
INDEX["C24"] = ["h_interval"]
INDEX["C25"] = ["h_stlf"]
INDEX["C26"] = ["h_predint"]
INDEX["C27"] = ["h_distdist"]
INDEX["C28"] = ["h_dtw"]
INDEX["C29"] = ["h_statmodels"]
