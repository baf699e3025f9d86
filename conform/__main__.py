import os, sys, json, importlib, time
os.environ.setdefault("OMP_NUM_THREADS", "1")
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, repo)
TABLE = {
    "C01": ("scaler_h", "c01"), "C02": ("scaler_h", "c02"), "C03": ("scaler_h", "c03"), "C04": ("scaler_h", "c04"),
    "C05": ("tools_h", "c05"), "C09": ("tools_h", "c09"), "C12": ("tools_h", "c12"), "C13": ("tools_h", "c13"), "C14": ("tools_h", "c14"),
    "C06": ("mcmc_h", "c06"), "C07": ("mcmc_h", "c07"), "C08": ("mcmc_h", "c08"),
    "C10": ("sampler_h", "c10"), "C11": ("sampler_h", "c11"), "C15": ("sampler_h", "c15"), "C16": ("sampler_h", "c16"), "C17": ("sampler_h", "c17"),
    "C18": ("sampler_h", "c18"), "C22": ("sampler_h", "c22"), "C23": ("run_h", "c23"), "C27": ("sampler_h", "c27"), "C28": ("run_h", "c28"),
    "C19": ("mpi_h", "c19"), "C20": ("state_h", "c20"), "C21": ("state_h", "c21"),
    "C24": ("flow_h", "c24"), "C25": ("flow_h", "c25"), "C26": ("flow_h", "c26"),
}


def main():
    prop, out = sys.argv[1], sys.argv[2]
    from . import common
    budget = float(os.environ.get("VERIF_CONFORM_BUDGET", "150"))
    rep = common.Rep(prop, budget)
    mod, fn = TABLE[prop]
    try:
        m = importlib.import_module("conform." + mod)
        getattr(m, fn)(rep)
    except Exception as e:
        import traceback
        rep.errors.append(traceback.format_exc()[-3000:])
    res = rep.out()
    import pocomc
    res["pocomc"] = pocomc.__file__
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=str)
    sys.stdout.flush()
    os._exit(0)


main()
