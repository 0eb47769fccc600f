import importlib
import sys

import vlib

TABLE = {
    **{f"C0{i}": ("lifecycle", f"c0{i}") for i in range(1, 6)},
    "C06": ("history_check", "c06"),
    "C10": ("cont_check", "c10"),
    "C07": ("density_check", "c07"),
    "C08": ("density_check", "c08"),
    "C09": ("density_check", "c09"),
    "C11": ("density_check", "c11"),
    "C12": ("domain_check", "c12"),
    "C13": ("domain_check", "c13"),
    "C20": ("domain_check", "c20"),
    "C14": ("solve_check", "c14"),
    "C15": ("solve_check", "c15"),
    "C19": ("config_check", "c19"),
    "C18": ("timer_check", "c18"),
    "C17": ("proj_check", "c17"),
    "C16": ("filter_check", "c16"),
    "C22": ("scaling_check", "c22"),
    "C21": ("meshutil_check", "c21"),
    "C25": ("material_check", "c25"),
    "C23": ("density_check", "c23"),
    "C24": ("density_check", "c24"),
}


def run(pid):
    mod, fn = TABLE[pid]
    try:
        m = importlib.import_module(mod)
    except Exception as ex:  # the package under test cannot even be imported
        d = vlib.exc_event(ex)
        if d["where"]:
            c = vlib.Check(pid)
            c.fail("import", {"detail": d})
            c.finish()
        raise
    vlib.main(pid, getattr(m, fn))


if __name__ == "__main__":
    run(sys.argv[1])
