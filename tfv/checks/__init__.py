REGISTRY = {
    "C01": ("eT_code", "RHS"),
    "C02": ("eT_code", "LHS"),
    "C03": ("eT_code", "Gates"),
    "C04": ("eT_code", "Optimized"),
    "C05": ("z_latex", "EtLatex"),
    "C06": ("z_latex", "ZhzLatex"),
    "C07": ("full_cc", "Latex"),
    "C08": ("full_cc", "Code"),
    "C09": ("full_cc", "Optimized"),
    "C10": ("wops", "WCode"),
    "C11": ("wops", "DtCode"),
    "C12": ("wops", "Residual"),
    "C13": ("w_latex", "WLatex"),
    "C14": ("history", "History"),
    "C15": ("validation", "Validation"),
    "C16": ("cli", "Cli"),
    "C17": ("documents", "Modules"),
    "C18": ("documents", "LatexForm"),
    "C19": ("documents", "HotBand"),
    "C20": ("wops", "Pipeline"),
    "C21": ("faults", "Faults"),
    "C22": ("purity", "Purity"),
    "C23": ("targets", "Targets"),
}
