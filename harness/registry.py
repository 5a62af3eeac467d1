REGISTRY = {
    "C01": ("reactions", "c01"), "C02": ("reactions", "c02"), "C03": ("reactions", "c03"),
    "C08": ("rxnsets", "c08"), "C09": ("rxnsets", "c09"), "C10": ("rxnsets", "c10"), "C11": ("rxnsets", "c11"), "C34": ("rxnsets", "c34"),
    "C04": ("enums", "c04"), "C05": ("enums", "c05"), "C06": ("enums", "c06"), "C07": ("enums", "c07"),
    "C12": ("networks", "c12"), "C13": ("networks", "c13"), "C14": ("networks", "c14"), "C15": ("networks", "c15"),
    "C16": ("paths", "c16"), "C17": ("paths", "c17"), "C18": ("paths", "c18"), "C19": ("paths", "c19"),
    "C24": ("hulls", "c24"), "C25": ("hulls", "c25"), "C26": ("competition", "c26"),
    "C20": ("entrysets", "c20"), "C21": ("entrysets", "c21"), "C22": ("entries", "c22"), "C23": ("entries", "c23"),
    "C27": ("costs", "c27"), "C28": ("pareto", "c28"), "C32": ("tasks", "c32"), "C33": ("entrydb", "c33"), "C35": ("archive", "c35"), "C36": ("figures", "c36"), "C29": ("chempot", "c29"), "C30": ("saving", "c30"), "C31": ("flows", "c31"),
}
