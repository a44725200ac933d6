CHECKS = {
    "P23": "c_tailmac",
    "P24": "c_conts",
    "P25": "c_scope",
    "P22": "c_msg",
    "P21": "c_mathseq",
    "P20": "c_fold",
    "P19": "c_it",
    "P18": "c_llist",
    "P17": "c_fup",
    "P16": "c_views",
    "P15": "c_letdo",
    "P14": "c_env",
    "P13": "c_typeof",
    "P12": "c_dispatch",
    "P10": "c_curry", "P11": "c_curry",
    "P09": "c_memo",
    "P08": "c_gmemo",
    "P06": "c_tail", "P07": "c_tail",
    "P05": "c_ec",
    "P03": "c_cond", "P04": "c_cond",
    "P01": "c_dyn", "P02": "c_dyn",
    "P26": "c_lazify",
    "P27": "c_intern",
    "P28": "c_amb",
    "P29": "c_fix",
    "P30": "c_exc",
    "P31": "c_gtco",
    "P32": "c_box",
    "P33": "c_testing",
    "P34": "c_exprs",
    "P35": "c_sig",
    "P36": "c_lambda",
    "P37": "c_autoref",
    "P38": "c_letsyntax",
    "P39": "c_autocurry",
    "P40": "c_numutil",
    "P41": "c_util",
    "P42": "c_notebook",
}
