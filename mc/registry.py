CHECKS = {
    "T01": ("track_core", "t01"),
    "T02": ("track_core", "t02"),
    "T03": ("track_core", "t03"),
    "T04": ("track_core", "t04"),
    "T05": ("track_core", "t05"),
    "T06": ("track_core", "t06"),
    "T07": ("track_core", "t07"),
    "T11": ("track_core", "t11"),
    "T12": ("unstruct", "t12"),
    "T08": ("preproc", "t08"),
    "T09": ("preproc", "t09"),
    "T10": ("preproc", "t10"),
    "T13": ("umorph", "t13"),
    "T14": ("repres", "t14"),
    "T15": ("ckpt", "t15"),
    "D01": ("detect_anom", "d01"),
    "D02": ("detect_anom", "d02"),
    "D03": ("detect_anom", "d03"),
    "D04": ("detect_thr", "d04"),
    "D05": ("detect_thr", "d05"),
    "D06": ("detect_pipe", "d06"),
    "D07": ("detect_pipe", "d07"),
    "D08": ("detect_pipe", "d08"),
    "D09": ("detect_pipe", "d09"),
    "D10": ("detect_pipe", "d10"),
    "T16": ("settings", "t16"),
    "T17": ("schedules", "t17"),
    "D11": ("schedules", "d11"),
    "S01": ("system", "s01"),
    "S02": ("plots", "s02"),
    "S03": ("errors", "s03"),
    "S04": ("plots", "s04"),
    "S05": ("errors", "s05"),
    "S06": ("helpers", "s06"),
    "S07": ("helpers", "s07"),
}
