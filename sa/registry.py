CHECKS = {
    "C01": ("effects", "determinism"),
    "C02": ("effects", "no_ambient_io"),
    "C03": ("cli", "files"),
    "C04": ("cli", "created"),
    "C05": ("cli", "errors"),
    "C26": ("cli", "wiring"),
    "C35": ("cli", "output"),
    "C06": ("swallow", "no_swallow"),
    "C07": ("events", "grammar"),
    "C10": ("events", "counts"),
    "C11": ("lines", "whole"),
    "C13": ("indent", "indentation"),
    "C14": ("events", "lenient"),
    "C20": ("roundtrip", "values"),
    "C21": ("roundtrip", "keys"),
    "C25": ("roundtrip", "delimiters"),
    "C32": ("roundtrip", "physical"),
    "C33": ("roundtrip", "lengths"),
    "C19": ("tree", "folding"),
    "C16": ("tree", "bounds"),
    "C17": ("tree", "expansion"),
    "C18": ("tree", "conflicts"),
    "C31": ("tree", "replacer"),
    "C23": ("tree", "json_text"),
    "C24": ("tree", "numbers"),
    "C37": ("tree", "entry_points"),
    "C34": ("tree", "layout_"),
    "C08": ("tree", "events"),
    "C36": ("tree", "build"),
}
