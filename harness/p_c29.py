"""C29: thermodynamic corrections of gases."""
from rates import run

SHO = ["H2_g", "CH4_g", "CO_g", "H2O_g", "CO2_g", "O2_g", "NH3_g", "N2_g", "N2O_g", "NO2_g", "NO_g", "NO3_g", "HNO2_g", "HNO3_g", "HCN_g",
       "CH2CH2_g", "CH2O_g", "CH3OH_g", "HCOOH_g", "CH3CH2OH_g"]
ENT = ["H2_g", "N2_g", "O2_g", "I2_g", "CO_g", "NO_g", "HCl_g", "CO2_g", "N2O_g", "H2O_g", "NH3_g", "CH4_g"]
NONE = ["CO_s", "O2_t", "C3H8_g", "CO_l", "*_s", "H2O_l", "CO-O_2s", "N5_g", "HC_g", "OC_g", "SO2_g", "Br2_g", "C2H2_g"]
TS = [50, 99, 100, 101, 200, 272, 273, 297, 298, 299, 300, 350, 450, 499, 500, 501, 650, 699, 700, 701, 999, 1000, 1001, 1199, 1200,
      1201, 1299, 1300, 1301, 1400, 1401, 1500, 1501, 1600, 1601, 1700, 1701, 2000, 2001, 2500, 2501, 3000, 4500, 6000]
# theta/T = 1/100 exactly is on the edge of two expansions
EDGE = {278, 289, 208, 245, 66, 61, 1520, 8750}


def op(rng, g, m, own):
    T = 0 if own else rng.choice(TS if rng.random() < 0.6 else range(60, 2500))
    while T in EDGE or (m == "entropy" and (T and T < 150 or T > 2500)):
        T = rng.choice(TS)
    o = dict(g=g, m=m, T=T, w=0, p=[])
    if m == "entropy":
        if g == "I2_g" or rng.random() < 0.3:
            o["w"] = rng.choice([20159, 280101, 1000000, 2538089])
        if rng.random() < 0.4:
            o["p"] = rng.choice([[101325, 1], [1, 1], [101325, 2], [100000, 1], [1, 10], [2000000, 1]])
    return o


def scenarios(rng, tier, spec):
    n = 0
    for s in spec:
        yield dict(T=s["T"], p=s["p"], gas=[dict(g=o["g"], m=o["m"], T=o["T"], w=o["w"], p=o["p"]) for o in s["gas"]])
    for g in SHO + NONE:
        for t in range(0, len(TS), 4):
            yield dict(T=450, p=[1, 1], gas=[dict(g=g, m="shomate", T=T, w=0, p=[]) for T in TS[t:t + 4]])
    for i in range(1500 if tier == "quick" else 6000):
        ops = []
        for _ in range(rng.randint(2, 6)):
            m = rng.choice(["shomate", "entropy", "entropy"])
            g = rng.choice(NONE) if rng.random() < 0.12 else rng.choice(SHO if m == "shomate" else ENT)
            ops.append(op(rng, g, m, rng.random() < 0.4))
        yield dict(T=rng.choice([200, 298, 300, 350, 450, 500, 650, 900, 1000]), p=rng.choice([[1, 1], [1, 2], [1, 100], [30, 1]]), gas=ops)
