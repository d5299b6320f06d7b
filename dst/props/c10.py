"""C10: a requested figure file is written or the failure is reported."""
from .. import boot, mixed, models_nsmb, plots, simfs
from ..models import maybe, pick
from . import c09

ID = "C10"
DISK = True
RUNS = {"quick": 160, "thorough": 9000}
RULE = ("Seeded histories of analysis objects whose plots are asked to save themselves (all plotting methods with a save option, random "
        "options, path forms, existing files and foreign files in the directory) with disk errors, full disk and short writes at seeded "
        "file operations of figure writing, each followed by a healthy retry; the directory is compared with the documented file set and "
        "the decoded image with that of a fresh object on a healthy disk. Non-trivial: at least one figure saved.")
STUBS = "libc file calls below the scratch directory (preloaded seam over the real file system); line events"
ASSUMPTIONS = ["The image drawn by a fresh object in the same state on a healthy disk is the reference image (compared as 96x64 thumbnail).",
               "A failing call of figure writing counts as reported if the call raises, or prints or warns anything it does not print on a healthy disk.",
               "Sampling: absence of a violation in the explored runs is evidence, not proof."]
# names a caller may choose: dots are not file formats, braces no placeholders
NAMES = ["", "run1", "a b", "20.5mK", "v1.pdf", "x{}", "r_2.0.1"]
KINDS = ["didv", "didv", "priors", "iv", "ibis", "noise", "noise", "noise", "tes", "nsmb", "nsmb"]


def prepare():
    boot.warm_plots()
    import PIL.Image
    PIL.Image.init()


def path(rng):
    return {"$": "fsdir", "d": pick(rng, ["p0", "p0", "p1"]), "form": pick(rng, ["abs", "abs", "abs", "cwd", "dot", "prefix", "dotted"] if maybe(rng, 0.95) else ["none"])}


def saving(rng, o, objs):
    """Plot operation of wrapper o which saves its figure."""
    p = path(rng)
    pre = {"prefix": "run 2_", "dotted": "run 2.5_", "none": "none/"}.get(p["form"], "")
    ex = None
    if o.kind == "tes":
        op = plots.noise_sim(rng, o.name)
        q = op["pa"][4]
        ex = [{"current": "current", "power": "power_noise", "sc": "SC_noise", "normal": "normal_noise"}[op["pa"][3]] + f"_qetbias{q * 1e6:.3f}muA.png"]
        op["a"].update(lgcsave=True, figsavepath=p)
    elif o.kind == "nsmb":
        op = models_nsmb.query(rng, o.me, o.name, 0.0)
        for _ in range(20):
            if op.get("f") in ("core.of_nsmb", "core.of_mb", "core.of_nsmb_con"):
                break
            op = models_nsmb.query(rng, o.me, o.name, 0.0)
        else:
            return None
        k = pick(rng, [1, 7, True])
        p = dict(p, form="cwd")
        op = dict(op, a=dict(op.get("a", {}), lgcplot=True, lgcsaveplots=k), fsdir=p)
        pre = ""
        ex = [{"core.of_mb": "bcFit", "core.of_nsmb": "scFit", "core.of_nsmb_con": "scFit"}[op["f"]] + f"{k}.png"]
    elif o.kind == "noise":
        if maybe(rng, 0.2):
            ns = [x for x in objs if x.kind == "noise" and x.made]
            op = plots.compare_noise(rng, [x.name for x in ns], [x.me for x in ns])
            ex = [f"{c}_PSD_comparison.png" for c in op["pa"][1]]
        else:
            op = o.mo.plot(rng, o.me, o.name)
            nm = o.me["name"].replace(" ", "_")
            a = op["a"]
            suf = {"plot_psd": ["_PSD_overlay" if a.get("lgcoverlay") else "_PSD_subplot"], "plot_reim_psd": ["_ReIm_PSD"],
                   "plot_corrcoeff": ["_corrcoeff"], "plot_csd": [f"_csd{w}" for w in range(len(a.get("whichcsd", [0])))],
                   "plot_decorrelatednoise": ["_deCorrNoise_overlay" if a.get("lgcoverlay") else "_deCorrNoise_subplot"]}[op["m"]]
            ex = [nm + x + ".png" for x in suf]
        op["a"].update(lgcsave=True, savepath=p)
    elif o.kind in ("iv", "ibis"):
        op = o.mo.plot(rng, o.me, o.name)
        sn = pick(rng, NAMES)
        ex = [f"{x}_curve_{sn}.png" for x in {"plot_iv": ["iv"], "plot_rv": ["rv"], "plot_pv": ["pv"], "plot_all_curves": ["iv", "rv", "pv"]}[op["m"]]]
        op["a"].update(lgcsave=True, savepath=p, savename=sn)
    else:
        op = o.mo.plot(rng, o.me, o.name)
        sn = pick(rng, NAMES)
        ex = [f"{x}_{sn}.png" for x in {
            "plot_full_trace": ["full_trace"], "plot_single_period_of_trace": ["trace_one_period"], "plot_zoomed_in_trace": ["zoomed_in_trace"],
            "plot_didv_flipped": ["flipped_trace"], "plot_re_im_didv": ["didv_real", "didv_imag"], "plot_abs_phase_didv": ["didv_abs", "didv_phase"],
            "plot_re_vs_im_dvdi": ["dvdi_real_vs_imag"]}[op["m"]]]
        op["a"].update(saveplot=True, savepath=p, savename=sn)
    return dict(op, plot=True, stdout=True, fs=True, healthy=p["form"] != "none", expect=[pre + x for x in ex])


def gen(rng, i, tier):
    objs = []
    kinds = KINDS if maybe(rng, 0.5) else [pick(rng, KINDS)]
    for k in range(pick(rng, [1, 1, 2])):
        o = mixed.Obj(rng, pick(rng, kinds), f"z{k}", objs[0] if objs and maybe(rng, 0.5) else None)
        if o.kind == "noise" and maybe(rng, 0.5):
            o.me["name"] = pick(rng, ["noise run 1", "n", "a  b", "n.2", "det 1.5mK"])
        objs.append(o)
    length = pick(rng, [6, 9, 12]) if tier == "quick" else pick(rng, [8, 16, 28])
    ops = []
    while len(ops) < length:
        o = pick(rng, objs)
        if not o.made:
            ops += o.make(rng)
            if o.kind == "noise":
                ops += [{"o": o.name, "m": m, "a": {}} for m in (["calculate_psd", "calculate_corrcoeff", "calculate_csd", "calculate_uncorr_noise"]
                                                                  if o.me["shape"][1] > 1 else ["calculate_psd"]) if maybe(rng, 0.8)]
            elif o.kind in ("didv", "priors"):
                ops.append({"o": o.name, "m": "processtraces", "a": {}})
                ops.append(o.mo.fit(rng, o.me, o.name))
            elif o.kind in ("iv", "ibis"):
                ops.append(o.mo.ana(rng, o.me, o.name))
            continue
        if maybe(rng, 0.6):
            op = saving(rng, o, objs)
            if op is None:
                continue
            if maybe(rng, 0.55):
                d = c09.disk(rng)
                d["how"] = pick(rng, ["error", "error", "error", "full", "short", "shorterr"])
                ops.append(dict(op, fault=d))
                if maybe(rng, 0.6):
                    ops.append(op)
            else:
                ops.append(op)
        else:
            ops.append(o.op(rng))
    for o in objs:
        if o.made:
            ops += [o.op(rng) for _ in range(2)]
    return {"ops": ops, "opts": {}}


def nontrivial(spec, res):
    return res["stats"].get("saved figures", 0) > 0
