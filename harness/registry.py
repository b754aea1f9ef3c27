"""property id -> check"""
import fam_w
import fam_fccpy
import fam_fcctex
import fam_wtex


def c01(c, tier):
    fam_w.check(c, [('trace_w', n, False) for n in range(1, 7)])


def c02(c, tier):
    fam_w.check(c, [('trace_residual', n, h) for n in range(0, 7) for h in (1, 2)])


def c03(c, tier):
    fam_w.check(c, [('trace_dt', n, False) for n in range(1, 7)])


def c04(c, tier):
    fam_w.check(c, [('trace_w', n, True) for n in range(1, 7)] + [('trace_dt', n, True) for n in range(1, 7)])


def c10(c, tier):
    fam_fccpy.check(c, 'terms', *((3000, 200) if tier == 'quick' else (30000, 3000)), None)
    fam_fccpy.check(c, 'amplitude', *((300, 100) if tier == 'quick' else (3000, 1000)), None)


def c11(c, tier):
    fam_fccpy.check(c, 'guards', *((1000, 100) if tier == 'quick' else (10000, 1000)), 3 if tier == 'quick' else None)


def c12(c, tier):
    fam_fccpy.check(c, 'optimized', *((1000, 100) if tier == 'quick' else (10000, 1000)), 4 if tier == 'quick' else None)


def c06(c, tier):
    fam_fcctex.check(c, 'terms', tier)


def c07(c, tier):
    fam_fcctex.check(c, 'coef', tier)


def c08(c, tier):
    fam_fcctex.check(c, 'labels', tier)


def c09(c, tier):
    fam_fcctex.check(c, 'lhs', tier)


def c05(c, tier):
    fam_wtex.check(c, tier)


CHECKS = {'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C10': c10, 'C11': c11, 'C12': c12}


import fam_z  # noqa: E402


def c13(c, tier):
    fam_z.check(c, fam_z.zhz_configs(tier))


def c14(c, tier):
    fam_z.check(c, fam_z.eTz_configs(tier, 'RHS'))


def c15(c, tier):
    fam_z.check(c, fam_z.eTz_configs(tier, 'LHS'))


CHECKS.update(C13=c13, C14=c14, C15=c15)


import fam_zpy  # noqa: E402


def c16(c, tier):
    fam_zpy.check(c, ['RHS'], ['terms'], tier)


def c17(c, tier):
    fam_zpy.check(c, ['LHS'], ['terms'], tier)


def c18(c, tier):
    fam_zpy.check(c, ['RHS', 'LHS'], ['guards', 'amplitude'], tier)


CHECKS.update(C16=c16, C17=c17, C18=c18)


import fam_session  # noqa: E402


def c19(c, tier):
    fam_session.check_cli(c, tier)


def c20(c, tier):
    fam_session.check_trunc(c, tier)


def c21(c, tier):
    fam_session.check_history(c, tier)


CHECKS.update(C19=c19, C20=c20, C21=c21)


import fam_texdoc  # noqa: E402


def c22(c, tier):
    fam_texdoc.check(c, tier)


CHECKS.update(C22=c22)


# ---------------------------------------------------------------- design models, checked before the code is
import core  # noqa: E402

MODELS = {  # property -> [(module, quick configurations, thorough configurations)]
    'W': ('MC_W.tla', ['MC_W.cfg'], ['MC_W.cfg']),
    'FCC': ('MC_FullCC.tla', ['MC_FullCC_mid.cfg', 'MC_FullCC_thermal.cfg'], ['MC_FullCC_deep.cfg', 'MC_FullCC_thermal_deep.cfg']),
    'HZ': ('MC_HZ.tla', ['MC_HZ.cfg'], ['MC_HZ_deep.cfg']),
    'TEX': ('MC_TexDoc.tla', ['MC_TexDoc.cfg'], ['MC_TexDoc_deep.cfg']),
}
MODEL_OF = {**{f'C{i:02}': 'W' for i in range(1, 6)}, **{f'C{i:02}': 'FCC' for i in range(6, 13)},
            **{f'C{i:02}': 'HZ' for i in range(13, 19)}, 'C22': 'TEX'}


def with_model(fn, name):
    module, quick, thorough = MODELS[name]

    def run(c, tier):
        for cfg in (quick if tier == 'quick' else thorough):
            core.run_model(c, module, core.os.path.join(core.SPEC, cfg))
        fn(c, tier)
    return run


for _id, _name in MODEL_OF.items():
    CHECKS[_id] = with_model(CHECKS[_id], _name)


import fam_pymod  # noqa: E402


def c23(c, tier):
    fam_pymod.check(c, tier)


MODELS['PY'] = ('MC_PyModule.tla', ['MC_PyModule.cfg'], ['MC_PyModule_deep.cfg'])
CHECKS['C23'] = with_model(c23, 'PY')


import fam_comb  # noqa: E402


def c24(c, tier):
    fam_comb.check(c, tier)


MODELS['COMB'] = ('MC_Comb.tla', ['MC_Comb.cfg'], ['MC_Comb_deep.cfg'])
CHECKS['C24'] = with_model(c24, 'COMB')
