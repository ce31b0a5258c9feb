------------------------------ MODULE GasData -------------------------------
(* Reference data of gases, pinned: NIST Shomate parameters, rotational and   *)
(* vibrational temperatures (Tien/Lienhard), standard atomic masses.          *)
EXTENDS Integers, Sequences

\* <<gas, T from, T to, <<A, B, C, D, E, F, G, H>> * 10^4>> in order of preference.
ShomateTable == <<
  <<"H2_g", 298, 1000, <<330662, -113634, 114328, -27729, -1586, -99808, 1727080, 0>>>>,
  <<"H2_g", 1000, 2500, <<185631, 122574, -28598, 2682, 19780, -11474, 1562881, 0>>>>,
  <<"H2_g", 2500, 6000, <<434136, -42931, 12724, -969, -205339, -385152, 1620814, 0>>>>,
  <<"CH4_g", 298, 1300, <<-7030, 1084773, -425216, 58628, 6786, -768438, 1587163, -748731>>>>,
  <<"CH4_g", 1300, 1600, <<858122, 112647, -21141, 1382, -264222, -1535327, 2244143, -748731>>>>,
  <<"CO_g", 298, 1300, <<255676, 60961, 40547, -26712, 1310, -1180089, 2273665, -1105271>>>>,
  <<"CO_g", 1300, 1600, <<351507, 13001, -2059, 136, -32828, -1278375, 2317120, -1105271>>>>,
  <<"H2O_g", 100, 500, <<363040, -241123, 636411, -389524, -138, -102397, 2373943, 0>>>>,
  <<"H2O_g", 500, 1700, <<300920, 68325, 67934, -25345, 821, -2508810, 2233967, -2418264>>>>,
  <<"H2O_g", 1700, 6000, <<419643, 86221, -14998, 981, -111576, -2721797, 2197809, -2418264>>>>,
  <<"CO2_g", 298, 1200, <<249974, 551870, -336914, 79484, -1366, -4036075, 2282431, -3935224>>>>,
  <<"CO2_g", 1200, 6000, <<581664, 27201, -4923, 388, -64473, -4259186, 2636125, -3935224>>>>,
  <<"O2_g", 100, 700, <<313223, -202353, 578664, -365062, -74, -89035, 2467945, 0>>>>,
  <<"O2_g", 700, 2000, <<300324, 87730, -39881, 7883, -7416, -113247, 2361663, 0>>>>,
  <<"O2_g", 2000, 6000, <<209111, 107207, -20205, 1464, 92457, 53377, 2376185, 0>>>>,
  <<"NH3_g", 298, 1400, <<199956, 497712, -153760, 19212, 1892, -533067, 2038591, -458981>>>>,
  <<"N2_g", 100, 500, <<289864, 18540, -96475, 166354, 1, -86719, 2264168, 0>>>>,
  <<"N2_g", 500, 2000, <<195058, 198870, -85985, 13698, 5276, -49352, 2123900, 0>>>>,
  <<"N2O_g", 298, 1400, <<276799, 511490, -306445, 68479, -1579, 712493, 2386164, 820482>>>>,
  <<"NO2_g", 298, 1200, <<161086, 758952, -543874, 143078, 2394, 261746, 2405386, 330950>>>>,
  <<"NO_g", 298, 1200, <<238349, 125888, -11390, -14975, 2142, 833578, 2371219, 902911>>>>,
  <<"NO3_g", 298, 1200, <<112232, 1663889, -1484458, 474060, -1768, 610086, 2217679, 711280>>>>,
  <<"HNO2_g", 298, 1200, <<248997, 913756, -648461, 179201, -1347, -881360, 2542671, -767350>>>>,
  <<"HNO3_g", 298, 1200, <<196323, 1539599, -1158378, 328796, -2491, -1468818, 2477049, -1343060>>>>,
  <<"HCN_g", 298, 1200, <<326937, 225920, -43691, -4077, -2824, 1234811, 2332597, 1351432>>>>,
  <<"CH2CH2_g", 298, 1200, <<-63879, 1844019, -1129718, 284959, 3155, 481733, 1631568, 524669>>>>,
  <<"CH2O_g", 298, 1500, <<51938, 932325, -448546, 78823, 5512, -1193591, 2024663, -1158972>>>>,
  <<"CH3OH_g", 298, 1500, <<-5448, 1518867, -783182, 161065, 4938, -50080, 2000500, 0>>>>,
  <<"HCOOH_g", 298, 1500, <<38028, 1536622, -846405, 162974, 2772, -61653, 2129699, 0>>>>,
  <<"CH3CH2OH_g", 273, 1300, <<63727, 2730132, -1630101, 387772, 3343, -72500, 2010000, 0>>>>>>

\* <<gas, symmetry number, <<rotational temperatures * 10^4>>, <<vibrational temperatures>>>>
RotVibTable == <<
  <<"H2_g", 2, <<875000>>, <<6320>>>>,
  <<"N2_g", 2, <<28900>>, <<3390>>>>,
  <<"O2_g", 2, <<20800>>, <<2278>>>>,
  <<"I2_g", 2, <<537>>, <<309>>>>,
  <<"CO_g", 1, <<27800>>, <<3120>>>>,
  <<"NO_g", 1, <<24500>>, <<2745>>>>,
  <<"HCl_g", 1, <<152000>>, <<4330>>>>,
  <<"CO2_g", 2, <<6600>>, <<954, 1890, 3360>>>>,
  <<"N2O_g", 1, <<6100>>, <<850, 1840, 3200>>>>,
  <<"H2O_g", 2, <<404000, 211000, 135000>>, <<2290, 5160, 5360>>>>,
  <<"NH3_g", 3, <<143000, 143000, 90800>>, <<1360, 2330, 4780, 4880>>>>,
  <<"CH4_g", 12, <<76000, 76000, 76000>>, <<1870, 2180, 4170, 4320>>>>>>

\* Atomic masses in 10^-4 u.
MassTable == <<<<"H", 10079>>, <<"C", 120107>>, <<"N", 140067>>, <<"O", 159994>>, <<"F", 189984>>, <<"Ne", 201797>>, <<"S", 320650>>, <<"Cl", 354530>>>>
=============================================================================
