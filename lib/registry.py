"""Which module decides which property."""
import importlib

TABLE = {
    "C01": ("check_ops", "elementwise"),
    "C02": ("check_ops", "products"),
    "C03": ("check_ops", "matrix_products"),
    "C04": ("check_ops", "sparse_products"),
    "C05": ("check_ops", "aliased"),
    "C06": ("check_ops", "mismatch"),
    "C10": ("check_ops", "dense_access"),
    "C11": ("check_ops", "structured"),
    "C13": ("check_ops", "growth"),
    "C14": ("check_ops", "failures"),
    "C15": ("check_ops", "cholesky"),
    "C16": ("check_ops", "tridiagonal"),
    "C17": ("check_ops", "repeated_solves"),
    "C21": ("check_ops", "coordinate"),
    "C22": ("check_ops", "coordinate_sums"),
    "C23": ("check_ops", "compressed"),
    "C24": ("check_ops", "copies"),
    "C27": ("check_ops", "empty_objects"),
    "C28": ("check_ops", "assertions"),
    "C25": ("check_ops", "triangular"),
    "C26": ("check_ops", "gram_schmidt"),
    "C07": ("flow_checks", "errors_reach_caller"),
    "C08": ("omp_checks", "parallel_loops"),
    "C09": ("flow_checks", "no_hidden_state"),
    "C12": ("memory_checks", "lifetimes"),
    "C18": ("memory_checks", "in_bounds"),
    "C19": ("compile_checks", "element_types"),
    "C20": ("compile_checks", "headers_and_linkage"),
}


def run(prop, c):
    mod, fn = TABLE[prop]
    getattr(importlib.import_module(mod), fn)(c)
