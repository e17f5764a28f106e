"""Which module decides which property."""
REGISTRY = {
    **{f"C{i:02d}": "machine_checks" for i in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 18, 24)},
    "C03": "network",
    "C13": "faults",
    "C17": "rotation",
    "C25": "overlap",
    "C26": "reports",
    "C27": "resume",
    "C28": "restarts",
    "C29": "traffic",
    **{prop: "leaf" for prop in ("C19", "C20", "C21", "C22")},
}
