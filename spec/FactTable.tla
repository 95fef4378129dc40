---------------------------- MODULE FactTable ----------------------------
(* Generated by tools/mkfact.py: FactTab[n+1] = n!, InvFactTab[n+1] = 1/n!.
   SpecTest.tla checks the recursion n! = n (n-1)! on the whole table. *)
EXTENDS Integers
FactTab == <<
<<1,1,<<1,0,0,0,0,0,0>>>>,
<<1,1,<<1,0,0,0,0,0,0>>>>,
<<1,1,<<2,0,0,0,0,0,0>>>>,
<<1,1,<<6,0,0,0,0,0,0>>>>,
<<1,1,<<24,0,0,0,0,0,0>>>>,
<<1,1,<<120,0,0,0,0,0,0>>>>,
<<1,1,<<720,0,0,0,0,0,0>>>>,
<<1,1,<<5040,0,0,0,0,0,0>>>>,
<<1,2,<<4,320,0,0,0,0,0>>>>,
<<1,2,<<36,2880,0,0,0,0,0>>>>,
<<1,2,<<362,8800,0,0,0,0,0>>>>,
<<1,2,<<3991,6800,0,0,0,0,0>>>>,
<<1,3,<<4,7900,1600,0,0,0,0>>>>,
<<1,3,<<62,2702,800,0,0,0,0>>>>,
<<1,3,<<871,7829,1200,0,0,0,0>>>>,
<<1,4,<<1,3076,7436,8000,0,0,0>>>>,
<<1,4,<<20,9227,8988,8000,0,0,0>>>>,
<<1,4,<<355,6874,2809,6000,0,0,0>>>>,
<<1,4,<<6402,3737,572,8000,0,0,0>>>>,
<<1,5,<<12,1645,1004,883,2000,0,0>>>>,
<<1,5,<<243,2902,81,7664,0,0,0>>>>,
<<1,5,<<5109,942,1717,944,0,0,0>>>>,
<<1,6,<<11,2400,727,7776,768,0,0>>>>,
<<1,6,<<258,5201,6738,8849,7664,0,0>>>>,
<<1,6,<<6204,4840,1733,2394,3936,0,0>>>>,
<<1,7,<<15,5112,1004,3330,9859,8400,0>>>>,
<<1,7,<<403,2914,6112,6605,6355,8400,0>>>>,
<<1,8,<<1,888,8694,5041,8352,1607,6800>>>>,
<<1,8,<<30,4888,3446,1171,3860,5015,400>>>>,
<<1,8,<<884,1761,9937,3970,1954,5436,1600>>>>,
<<1,9,<<2,6525,2859,8121,9105,8636,3084>>>>,
<<1,9,<<82,2283,8654,1779,2281,7725,5628>>>>,
<<1,9,<<2631,3083,6933,6935,3016,7218,121>>>>,
<<1,10,<<8,6833,1761,8811,8864,9551,8194>>>>,
<<1,10,<<295,2327,9903,9604,1408,4761,8609>>>>,
<<1,11,<<1,333,1479,6638,6144,9296,6665>>>>,
<<1,11,<<37,1993,3267,8990,1217,4679,9944>>>>,
<<1,11,<<1376,3753,912,2634,5046,3159,7958>>>>,
<<1,12,<<5,2302,2617,4666,111,1760,72>>>>,
<<1,12,<<203,9788,2081,1974,4335,8640,2817>>>>,
<<1,12,<<8159,1528,3247,8977,3434,5611,2695>>>>,
<<1,13,<<33,4525,2661,3163,8071,817,62>>>>,
<<1,13,<<1405,61,1775,2879,8985,4314,2606>>>>,
<<1,14,<<6,415,2630,6337,3835,6373,5513>>>>,
<<1,14,<<265,8271,5747,8844,8768,436,2581>>>>,
<<1,15,<<1,1962,2220,8654,8019,4561,9631>>>>,
<<1,15,<<55,262,2159,8120,8894,9850,3054>>>>,
<<1,15,<<2586,2324,1511,1681,8064,2964,3551>>>>,
<<1,16,<<12,4139,1559,2536,726,7086,2289>>>>,
<<1,16,<<608,2818,6403,4267,5608,7225,2163>>>>,
<<1,17,<<3,414,932,171,3378,436,1260>>>>,
<<1,17,<<155,1118,7532,8738,2280,2242,4301>>>>,
<<1,17,<<8065,8175,1709,4387,8571,6606,3685>>>>,
<<1,18,<<42,7488,3284,600,2556,4298,137>>>>,
<<1,18,<<2308,4369,7339,2413,8047,2092,7426>>>>,
<<1,19,<<12,6964,335,3658,2759,2596,5100>>>>,
<<1,19,<<710,9985,8780,4863,4518,5404,5647>>>>,
<<1,20,<<4,526,9195,487,7216,7556,8060>>>>,
<<1,20,<<235,561,3312,8287,8571,8294,7491>>>>,
<<1,21,<<1,3868,3118,5456,8983,5737,9390>>>>,
<<1,21,<<83,2098,7112,7413,9014,4276,3411>>>>,
<<1,21,<<5075,8021,3877,2247,9880,856,8121>>>>,
<<1,22,<<31,4699,7326,387,9375,2565,3122>>>>,
<<1,22,<<1982,6083,1540,4440,641,1614,6708>>>>,
<<1,23,<<12,6886,9321,8588,4164,1034,3338>>>>,
<<1,23,<<824,7650,5920,8247,666,7231,7030>>>>,
<<1,24,<<5,4434,4939,774,4306,4003,7292>>>>,
<<1,24,<<364,7111,918,1886,8528,8249,8590>>>>,
<<1,25,<<2,4800,3554,2436,8305,9960,990>>>>,
<<1,25,<<171,1224,5242,8141,3113,7246,8338>>>>,
<<1,26,<<1,1978,5716,6996,9891,7960,7278>>>>,
<<1,26,<<85,478,5885,6786,2317,5211,6764>>>>,
<<1,26,<<6123,4458,3768,8608,6861,5240,7038>>>>,
<<1,27,<<44,7011,5461,5126,8434,891,2571>>>>,
<<1,27,<<3307,8854,4151,9386,4122,5953,282>>>>,
<<1,28,<<24,8091,4081,1395,3980,9194,6477>>>>,
<<1,28,<<1885,4947,166,6050,2549,8793,2260>>>>,
<<1,29,<<14,5183,920,2828,5869,6340,7078>>>>,
<<1,29,<<1132,4281,1782,629,7831,4575,2115>>>>,
<<1,30,<<8,9461,8213,782,9752,8685,1441>>>>,
<<1,30,<<715,6945,7046,2638,229,4811,5337>>>>,
<<1,31,<<5,7971,2602,747,3679,8587,9734>>>>,
<<1,31,<<475,3643,3370,1284,1748,4213,8206>>>>,
<<1,32,<<3,9455,2396,9720,6586,5118,9747>>>>,
<<1,32,<<331,4240,1345,6535,3266,9993,8757>>>>,
<<1,33,<<2,8171,411,4380,5502,7694,9479>>>>,
<<1,33,<<242,2709,5383,6727,3238,1765,5232>>>>,
<<1,34,<<2,1077,5729,8379,5277,1721,3600>>>>,
<<1,34,<<185,4826,4225,7398,4391,1479,6845>>>>,
<<1,35,<<1,6507,9551,6090,8461,812,1691>>>>,
<<1,35,<<148,5715,9644,8176,1497,3095,2273>>>>,
<<1,36,<<1,3520,152,7678,4029,6255,1665>>>>,
<<1,36,<<124,3841,4054,6413,725,5475,3243>>>>,
<<1,37,<<1,1567,7250,7081,6415,7475,9205>>>>,
<<1,37,<<108,7366,1566,5674,3080,2736,5285>>>>,
<<1,38,<<1,329,9784,8823,9059,2625,9970>>>>,
<<1,38,<<99,1677,9348,7094,9689,2095,7140>>>>,
<<1,38,<<9619,2759,6824,8211,9853,3284,2594>>>>,
<<1,39,<<94,2689,448,8832,4774,5626,1857>>>>,
<<1,39,<<9332,6215,4439,4415,2681,6992,3885>>>>,
<<1,40,<<93,3262,1544,3944,1526,8169,9238>>>>,
<<1,40,<<9425,9477,5983,8359,4208,5162,3124>>>>,
<<1,41,<<96,1446,6715,351,2660,9268,6555>>>>,
<<1,41,<<9902,9007,1648,6180,4075,4671,5254>>>>,
<<1,42,<<102,9901,6745,1456,2762,3848,5838>>>>,
<<1,43,<<1,813,9675,8240,2909,50,4101>>>>,
<<1,43,<<114,6280,5637,3470,8354,5343,4738>>>>,
<<1,44,<<1,2265,2020,3196,1379,3935,1751>>>>,
<<1,44,<<132,4641,8194,5182,8974,4998,9183>>>>,
<<1,45,<<1,4438,5958,3202,4935,8220,4882>>>>,
<<1,45,<<158,8245,5415,2274,2940,4253,7031>>>>,
<<1,46,<<1,7629,5255,1090,2446,6387,2161>>>>,
<<1,46,<<197,4506,8572,2107,4023,5368,2037>>>>,
<<1,47,<<2,2311,9274,8659,8136,4659,6607>>>>,
<<1,47,<<254,3559,7334,7218,7557,1201,3200>>>>,
<<1,48,<<2,9250,9369,3493,156,9068,8151>>>>,
<<1,48,<<339,3108,6844,5189,8201,1982,5609>>>>,
<<1,49,<<3,9699,3716,808,7208,9540,1959>>>>,
<<1,49,<<468,4525,8497,5429,656,5743,1236>>>>,
<<1,50,<<5,5745,8576,1207,6058,8132,3431>>>>,
<<1,50,<<668,9502,9134,4912,7057,5881,1805>>>>,
<<1,51,<<8,942,9852,5273,4437,3968,1622>>>>,
<<1,51,<<987,5044,2008,3360,1362,4115,7987>>>>,
<<1,52,<<12,1463,436,7025,3296,7576,6243>>>>,
<<1,52,<<1506,1417,4151,1140,8797,9501,4161>>>>,
<<1,53,<<18,8267,7176,8889,2609,9743,7677>>>>,
<<1,53,<<2372,1732,4288,46,8856,7714,7305>>>>,
<<1,54,<<30,1266,18,4576,5954,4809,9770>>>>,
<<1,54,<<3856,2048,2362,5804,2173,5677,659>>>>,
<<1,55,<<49,7450,4222,4772,8744,390,2341>>>>,
<<1,55,<<6466,8554,8922,473,6725,730,4395>>>>,
<<1,56,<<84,7158,690,8788,2051,984,5687>>>>,
<<1,57,<<1,1182,4865,1196,43,744,9963>>>>,
<<1,57,<<148,7270,7060,9068,5728,9084,5089>>>>,
<<1,58,<<1,9929,4274,6161,5188,7673,7324>>>>,
<<1,58,<<269,472,7073,1805,483,5953,8766>>>>,
<<1,59,<<3,6590,4288,1952,5486,5768,9727>>>>,
<<1,59,<<501,2888,7482,7499,1661,349,2629>>>>,
<<1,60,<<6,9177,8647,2619,4884,9222,8198>>>>,
<<1,60,<<961,5723,1969,4108,9004,1971,9561>>>>,
<<1,61,<<13,4620,1247,5717,5246,587,6073>>>>,
<<1,61,<<1898,1437,5907,6170,9694,2852,6414>>>>,
<<1,62,<<26,9536,4137,8881,6277,6588,5075>>>>,
<<1,62,<<3854,3707,1718,72,7705,2156,5736>>>>,
<<1,63,<<55,5029,3832,7393,478,9551,546>>>>,
<<1,63,<<8047,9260,5747,1991,9448,4902,9257>>>>,
<<1,64,<<117,4997,2043,9091,823,9479,5827>>>>,
<<1,65,<<1,7272,4589,454,6389,1120,3498>>>>,
<<1,65,<<255,6323,9178,7286,5588,5811,7801>>>>,
<<1,66,<<3,8089,2263,7630,5697,2698,5955>>>>,
<<1,66,<<571,3383,9564,4585,4590,4789,3286>>>>,
<<1,67,<<8,6272,977,4233,2404,3162,3188>>>>,
<<1,67,<<1311,3358,8568,3452,5456,672,4671>>>>,
<<1,68,<<20,634,3905,956,8239,4778,2887>>>>,
<<1,68,<<3089,7696,1384,7350,8879,5856,4670>>>>,
<<1,69,<<47,8914,2901,4633,9387,6335,7752>>>>,
<<1,69,<<7471,629,2628,2894,4470,8380,9372>>>>,
<<1,70,<<117,2956,8794,2641,4428,1921,5807>>>>,
<<1,71,<<1,8532,7186,9493,7347,9654,3609>>>>,
<<1,71,<<294,6702,2724,9503,8326,5043,3950>>>>,
<<1,72,<<4,7147,2363,5992,613,2240,6943>>>>,
<<1,72,<<759,705,539,4721,8729,751,7857>>>>,
<<1,73,<<12,2969,4218,7394,4943,4110,1789>>>>,
<<1,73,<<2004,4015,7654,5302,5775,9959,1653>>>>,
<<1,74,<<32,8721,8585,5342,9622,7263,3303>>>>,
<<1,74,<<5423,9106,6613,1588,7749,8449,5014>>>>,
<<1,75,<<90,369,1705,7784,3736,6474,2617>>>>,
<<1,76,<<1,5036,1651,4864,9990,4020,1201>>>>,
<<1,76,<<252,6075,7449,7319,8387,5380,1886>>>>,
<<1,77,<<4,2690,6800,9004,7052,7493,9251>>>>,
<<1,77,<<725,7415,6153,799,8967,3967,2821>>>>,
<<1,78,<<12,4101,8070,2176,6782,3424,8405>>>>,
<<1,78,<<2134,5510,8077,4388,6562,9072,5701>>>>,
<<1,79,<<36,9277,3369,7396,9237,5382,9554>>>>,
<<1,79,<<6425,4256,6334,7064,7331,6634,2506>>>>,
<<1,80,<<112,4449,4910,8573,6328,3041,993>>>>,
<<1,81,<<1,9790,3110,4310,8959,3781,5233>>>>,
<<1,81,<<350,2885,546,3028,5809,9329,6328>>>>,
<<1,82,<<6,2351,3539,7241,9087,4168,674>>>>,
<<1,82,<<1116,892,3610,6301,6647,6084,760>>>>,
<<1,83,<<20,896,624,9913,4299,6569,5133>>>>,
<<1,83,<<3636,2187,3123,4330,8237,9081,9197>>>>,
<<1,84,<<66,1791,8090,8464,8209,9299,2909>>>>,
<<1,85,<<1,2110,7901,624,9062,2417,1770>>>>,
<<1,85,<<222,8385,3795,4982,7452,4760,5724>>>>,
<<1,86,<<4,1225,1295,2167,1807,8708,705>>>>,
<<1,86,<<766,7874,910,3095,6263,9701,1298>>>>,
<<1,87,<<14,3389,2455,227,8882,1362,4111>>>>,
<<1,87,<<2695,7178,1544,2842,9841,6133,2919>>>>,
<<1,88,<<50,9490,6671,1869,7324,64,9192>>>>,
<<1,88,<<9680,3226,7525,5249,1561,2334,6514>>>>,
<<1,89,<<184,8941,6309,7375,2588,8195,5918>>>>,
<<1,90,<<3,5499,6793,1469,6049,7053,3553>>>>,
<<1,90,<<685,1438,1077,3633,7593,1297,5851>>>>,
<<1,91,<<13,2917,8992,9008,4949,3067,1731>>>>,
<<1,91,<<2591,8990,3615,6656,5114,8098,7645>>>>,
<<1,92,<<50,8012,2110,8670,4676,2502,7357>>>>,
<<1,93,<<1,7,8405,5840,8082,1221,3038>>>>,
<<1,93,<<198,1552,4305,6480,260,1818,1712>>>>,
<<1,94,<<3,9432,8933,6823,9525,1776,1816>>>>,
<<1,94,<<788,6578,6736,4790,5035,5236,3213>>>>,
<<1,95,<<15,8520,2313,4032,2891,2140,2500>>>>,
<<1,95,<<3202,1086,7307,4522,4025,2330,5121>>>>,
<<1,96,<<65,28,606,3412,8047,7122,3093>>>>,
<<1,97,<<1,3260,5724,3693,6212,1733,2951>>>>,
<<1,97,<<271,8417,3495,7192,3495,5325,4978>>>>,
<<1,98,<<5,5999,3974,118,1624,79,7052>>>>,
<<1,98,<<1159,1875,2620,4459,6169,6498,9881>>>>,
<<1,99,<<24,1111,54,5052,7600,3287,1789>>>>,
<<1,99,<<5039,2200,1391,6026,8468,7020,4011>>>>,
<<1,100,<<105,8236,2029,2236,5637,8427,4284>>>>,
<<1,101,<<2,2328,7838,8166,1914,9584,8187>>>>,
<<1,101,<<473,3702,1829,1232,5971,1981,5728>>>>,
<<1,102,<<10,827,8564,9603,2543,1865,2075>>>>,
<<1,102,<<2157,7161,2901,5096,4241,9154,4052>>>>,
<<1,103,<<46,3908,9677,3824,5731,2011,8197>>>>,
<<1,104,<<1,20,4337,314,6107,7939,4553>>>>,
<<1,104,<<217,4434,1135,8270,5391,2861,8013>>>>,
<<1,105,<<4,7402,6636,7610,2977,5300,3872>>>>,
<<1,105,<<1038,1183,3450,6655,2079,784,8120>>>>,
<<1,106,<<22,8386,335,9146,4145,7397,2658>>>>,
<<1,106,<<5047,3313,4237,1357,6208,4795,7561>>>>,
<<1,107,<<112,507,5580,644,1391,8282,4657>>>>,
<<1,108,<<2,4987,3185,4354,3643,377,6989>>>>,
<<1,108,<<559,7159,3537,5377,6040,4604,5731>>>>,
<<1,109,<<12,5936,854,5945,9960,9103,6028>>>>,
<<1,109,<<2846,1555,3138,3795,1165,7414,2542>>>>,
<<1,110,<<64,6077,3056,2412,1491,4623,3035>>>>,
<<1,111,<<1,4730,5625,6822,9970,53,4113>>>>,
<<1,111,<<337,3298,8281,2466,3131,2231,1926>>>>,
<<1,112,<<7,7585,8730,4686,7252,181,3174>>>>,
<<1,112,<<1792,2336,6738,2633,5216,1884,3263>>>>,
<<1,113,<<41,5798,2108,3277,977,155,7163>>>>,
<<1,113,<<9688,983,1240,3563,7644,6281,9142>>>>,
<<1,114,<<226,7015,51,243,3920,8842,9967>>>>,
<<1,115,<<5,3274,8526,1990,7197,1407,8104>>>>,
<<1,115,<<1257,2865,2182,9809,8525,2243,2602>>>>,
<<1,116,<<29,7976,9056,7366,4935,478,1652>>>>,
<<1,116,<<7091,8503,5503,3225,4541,3803,3335>>>>,
<<1,117,<<169,4952,2348,5294,883,5389,8996>>>>,
<<1,118,<<4,678,8536,3647,581,2049,3575>>>>,
<<1,118,<<980,3603,7263,8941,70,3895,1797>>>>,
<<1,119,<<23,7247,2101,7862,3723,7034,2633>>>>,
<<1,119,<<5765,1072,734,556,4859,9325,9937>>>>,
<<1,120,<<140,6686,1585,9109,5782,5823,5542>>>>,
<<1,121,<<3,4463,8108,8548,1846,6732,6770>>>>,
<<1,121,<<847,8097,4778,2853,4281,6238,5614>>>>,
<<1,122,<<20,9409,77,236,4796,7561,924>>>>,
<<1,122,<<5193,3433,9101,8646,9595,5150,9320>>>>,
<<1,123,<<129,3142,5043,6364,3092,9283,2582>>>>,
<<1,124,<<3,2328,5626,909,1077,3232,814>>>>,
<<1,124,<<811,4469,2148,8186,408,1252,4452>>>>,
<<1,125,<<20,4484,6242,1502,2882,2847,5616>>>>,
<<1,125,<<5173,4609,9264,78,9218,433,899>>>>,
<<1,126,<<131,4059,921,3058,46,1383,4>>>>,
<<1,127,<<3,3508,5068,4932,9791,1765,2665>>>>,
<<1,127,<<857,8177,7534,2842,6541,1908,2271>>>>,
<<1,128,<<22,459,1682,6311,562,1086,414>>>>,
<<1,128,<<5687,8465,4118,8252,5024,198,6910>>>>,
<<1,129,<<147,3152,2541,6775,7398,1221,1460>>>>,
<<1,130,<<3,8301,9586,836,1692,3511,7497>>>>>>

InvFactTab == <<
<<1,1,<<1,0,0,0,0,0,0>>>>,
<<1,1,<<1,0,0,0,0,0,0>>>>,
<<1,0,<<5000,0,0,0,0,0,0>>>>,
<<1,0,<<1666,6666,6666,6666,6666,6666,6666>>>>,
<<1,0,<<416,6666,6666,6666,6666,6666,6666>>>>,
<<1,0,<<83,3333,3333,3333,3333,3333,3333>>>>,
<<1,0,<<13,8888,8888,8888,8888,8888,8888>>>>,
<<1,0,<<1,9841,2698,4126,9841,2698,4126>>>>,
<<1,-1,<<2480,1587,3015,8730,1587,3015,8730>>>>,
<<1,-1,<<275,5731,9223,9858,9065,2557,3192>>>>,
<<1,-1,<<27,5573,1922,3985,8906,5255,7319>>>>,
<<1,-1,<<2,5052,1083,8544,1718,7750,5210>>>>,
<<1,-2,<<2087,6756,9878,6809,8979,2100,9032>>>>,
<<1,-2,<<160,5904,3836,8216,1459,9392,3771>>>>,
<<1,-2,<<11,4707,4559,7729,7247,1385,1697>>>>,
<<1,-3,<<7647,1637,3181,9816,4759,113,1985>>>>,
<<1,-3,<<477,9477,3323,8738,5297,4382,749>>>>,
<<1,-3,<<28,1145,7254,3455,2076,3198,9455>>>>,
<<1,-3,<<1,5619,2069,6858,6226,4622,1636>>>>,
<<1,-4,<<822,635,2466,2432,9716,9559,8123>>>>,
<<1,-4,<<41,1031,7623,3121,6485,8477,9906>>>>,
<<1,-4,<<1,9572,9410,6339,1261,2308,4757>>>>,
<<1,-5,<<889,6791,3924,5057,3286,7488,9744>>>>,
<<1,-5,<<38,6817,170,6306,8403,7716,9119>>>>,
<<1,-5,<<1,6117,3757,1096,1183,4904,8713>>>>,
<<1,-6,<<644,6950,2843,8447,3396,1948,5321>>>>,
<<1,-6,<<24,7959,6263,2247,9746,74,9435>>>>,
<<1,-7,<<9183,6898,6379,5546,1484,2571,6836>>>>,
<<1,-7,<<327,9889,2370,6983,7910,1520,4172>>>>,
<<1,-7,<<11,3099,6288,6447,7169,3155,8764>>>>,
<<1,-8,<<3769,9876,2881,5905,6438,5292,1525>>>>,
<<1,-8,<<121,6125,415,5351,7949,6299,7468>>>>,
<<1,-8,<<3,8003,9075,4854,7435,9259,3670>>>>,
<<1,-9,<<1151,6335,6207,7195,280,5868,8149>>>>,
<<1,-9,<<33,8715,7535,5211,6184,7231,4357>>>>,
<<1,-10,<<9677,5929,5863,1890,9920,8981,6380>>>>,
<<1,-10,<<268,8220,2662,8663,6386,6916,1566>>>>,
<<1,-10,<<7,2654,6017,9153,713,1538,2745>>>>,
<<1,-11,<<1911,9632,504,281,9251,72,2376>>>>,
<<1,-11,<<49,246,9756,5135,4339,7694,1599>>>>,
<<1,-11,<<1,2256,1743,9128,3858,4942,3539>>>>,
<<1,-12,<<298,9310,8271,4240,4510,7891,2191>>>>,
<<1,-12,<<7,1174,673,1291,4393,1140,2671>>>>,
<<1,-13,<<1655,2108,6774,2195,1886,9829,5633>>>>,
<<1,-13,<<37,6184,2881,2322,6179,2496,1264>>>>,
<<1,-14,<<8359,6508,4718,2803,9833,2472,5422>>>>,
<<1,-14,<<181,7315,4015,6147,9126,8097,2291>>>>,
<<1,-14,<<3,8666,2851,3960,5938,8682,9197>>>>,
<<1,-15,<<805,5476,707,5123,7264,2274,9520>>>>,
<<1,-15,<<16,4397,4708,3165,7903,3515,8153>>>>,
<<1,-16,<<3287,9494,1663,3158,670,3163,695>>>>,
<<1,-16,<<64,4695,9640,4571,7268,454,1778>>>>,
<<1,-16,<<1,2397,9993,857,1485,9239,5034>>>>,
<<1,-17,<<233,9245,1525,6065,7721,5000,6452>>>>,
<<1,-17,<<4,3319,3546,7704,9217,648,1600>>>>,
<<1,-18,<<787,6246,3049,1803,9466,3301,8358>>>>,
<<1,-18,<<14,647,2554,4496,4990,4701,8184>>>>,
<<1,-19,<<2467,4957,956,789,3064,9441,8417>>>>,
<<1,-19,<<42,5430,2947,5186,225,2576,5834>>>>,
<<1,-20,<<7210,6829,6189,5936,213,1624,3184>>>>,
<<1,-20,<<120,1780,4936,4932,2670,2193,7386>>>>,
<<1,-20,<<1,9701,3195,6802,1683,1183,5039>>>>,
<<1,-21,<<317,7632,1883,9059,4051,3468,3729>>>>,
<<1,-21,<<5,438,6061,6493,64,3070,9265>>>>,
<<1,-22,<<788,1032,2132,7032,2547,9832,2741>>>>,
<<1,-22,<<12,1246,6494,3492,8039,1997,4196>>>>,
<<1,-23,<<1837,704,4598,3758,1696,9306,3>>>>,
<<1,-23,<<27,4189,6188,354,5995,4765,7611>>>>,
<<1,-24,<<4032,2002,7652,2735,2275,9670,7644>>>>,
<<1,-24,<<58,4376,8516,6996,1627,1879,2864>>>>,
<<1,-25,<<8348,2407,3814,2308,9598,2755,2059>>>>,
<<1,-25,<<117,5808,5546,6793,839,4123,3127>>>>,
<<1,-25,<<1,6330,6743,7038,7928,3251,7126>>>>,
<<1,-26,<<223,7078,6808,7505,8674,6809,9557>>>>,
<<1,-26,<<3,230,7929,8479,8090,1983,9183>>>>,
<<1,-27,<<403,772,3979,7307,8693,1189,1095>>>>,
<<1,-27,<<5,3036,4789,2069,8403,8568,2777>>>>,
<<1,-28,<<688,7854,4052,8550,6994,3932,1762>>>>,
<<1,-28,<<8,8305,8257,878,8551,2101,6945>>>>,
<<1,-29,<<1117,7952,6213,6563,9393,6923,3628>>>>,
<<1,-29,<<13,9724,4077,6707,492,4211,5420>>>>,
<<1,-30,<<1724,9926,8848,2351,7582,8585,4365>>>>,
<<1,-30,<<21,364,9620,1004,2897,3519,3345>>>>,
<<1,-31,<<2534,5176,1457,8830,885,7751,1556>>>>,
<<1,-31,<<30,1728,2874,4986,724,8306,5613>>>>,
<<1,-32,<<3549,7445,5823,3655,5862,4301,3385>>>>,
<<1,-32,<<41,2760,9951,4344,8323,9817,4574>>>>,
<<1,-33,<<4744,3792,5452,2394,5285,2581,3131>>>>,
<<1,-33,<<53,9134,61,9572,6650,9688,4240>>>>,
<<1,-34,<<6057,6854,6287,3333,1569,5328,5408>>>>,
<<1,-34,<<67,3076,1625,4148,1461,8836,9837>>>>,
<<1,-35,<<7396,4413,4660,9686,3943,2635,5809>>>>,
<<1,-35,<<80,3961,159,3583,5477,6441,6910>>>>,
<<1,-36,<<8644,7421,683,6940,6198,2977,5373>>>>,
<<1,-36,<<91,9653,4156,2095,1129,7691,2503>>>>,
<<1,-37,<<9680,5622,6969,4222,4186,2236,8839>>>>,
<<1,-37,<<100,8391,9030,9314,8168,6064,9675>>>>,
<<1,-37,<<1,395,7928,1539,3280,887,2677>>>>,
<<1,-38,<<106,795,1852,4421,2253,9517,1129>>>>,
<<1,-38,<<1,715,1028,8125,4669,2318,3546>>>>,
<<1,-39,<<107,1510,2881,2546,6923,1835,4675>>>>,
<<1,-39,<<1,609,127,5371,7494,2889,4600>>>>,
<<1,-40,<<104,99,2895,8014,6498,9162,7524>>>>,
<<1,-40,<<1,98,513,5514,7053,3875,3665>>>>,
<<1,-41,<<97,966,4764,5644,7441,1092,9354>>>>,
<<1,-42,<<9247,2997,7577,5689,9153,2660,5205>>>>,
<<1,-42,<<87,2386,7712,9959,3388,2383,5898>>>>,
<<1,-43,<<8153,1473,9532,3302,6938,1643,9080>>>>,
<<1,-43,<<75,4921,551,2252,8027,2052,2584>>>>,
<<1,-44,<<6925,8812,3965,6220,4330,7546,6429>>>>,
<<1,-44,<<62,9625,5672,4147,4584,8250,4240>>>>,
<<1,-45,<<5672,3024,758,852,1155,4092,2546>>>>,
<<1,-45,<<50,6455,5721,543,3224,6018,6808>>>>,
<<1,-46,<<4481,9077,1774,7196,6778,9263,7916>>>>,
<<1,-46,<<39,3149,7998,238,5673,4993,5420>>>>,
<<1,-47,<<3418,6939,1132,5092,8130,3786,2636>>>>,
<<1,-47,<<29,4714,9923,5561,1449,3998,1574>>>>,
<<1,-48,<<2518,9315,5859,4969,6529,8987,8158>>>>,
<<1,-48,<<21,3468,7761,5211,6072,2872,7781>>>>,
<<1,-49,<<1793,8552,6178,2488,24,1409,9243>>>>,
<<1,-49,<<14,9487,9384,8187,4000,2011,7493>>>>,
<<1,-50,<<1235,4375,811,4661,1586,8739,6173>>>>,
<<1,-50,<<10,1265,3695,1759,5176,9415,8985>>>>,
<<1,-51,<<823,2956,8713,4920,1377,3650,2847>>>>,
<<1,-51,<<6,6394,8134,7862,2591,7529,4377>>>>,
<<1,-52,<<531,1585,782,8980,7340,2355,224>>>>,
<<1,-52,<<4,2155,4371,2928,4185,2399,6430>>>>,
<<1,-53,<<331,9325,7582,1135,3168,5011,2626>>>>,
<<1,-53,<<2,5932,2324,8602,6196,6289,1504>>>>,
<<1,-54,<<201,250,5803,1210,8265,8073,6813>>>>,
<<1,-54,<<1,5463,4660,240,832,8139,283>>>>,
<<1,-55,<<118,417,2520,9166,6627,154,8334>>>>,
<<1,-56,<<8942,5549,4008,8383,5379,9608,5932>>>>,
<<1,-56,<<67,2372,5518,8634,4626,9169,9894>>>>,
<<1,-57,<<5017,7056,1109,2124,814,7014,1360>>>>,
<<1,-57,<<37,1681,8971,1793,5117,1459,3639>>>>,
<<1,-58,<<2732,9551,2586,7169,9790,1423,8213>>>>,
<<1,-58,<<19,9485,7756,1074,2334,2346,1592>>>>,
<<1,-59,<<1445,5490,9862,8567,6393,8127,4840>>>>,
<<1,-59,<<10,3996,3380,3083,2204,2720,3416>>>>,
<<1,-60,<<742,8309,8593,4515,7448,24,4008>>>>,
<<1,-60,<<5,2683,486,4783,7996,851,2368>>>>,
<<1,-61,<<371,73,8484,3929,5498,9523,7243>>>>,
<<1,-61,<<2,5944,5723,6670,8360,1325,3407>>>>,
<<1,-62,<<180,1706,4143,5474,7231,4259,7728>>>>,
<<1,-62,<<1,2425,5614,7830,8601,5960,4122>>>>,
<<1,-63,<<85,1065,8546,7867,1342,1946,429>>>>,
<<1,-64,<<5789,5636,3726,9873,761,5377,702>>>>,
<<1,-64,<<39,1186,7322,4796,4397,374,1693>>>>,
<<1,-65,<<2625,4143,1038,9022,7989,883,8519>>>>,
<<1,-65,<<17,5027,6206,9260,1519,9272,5590>>>>,
<<1,-66,<<1159,1233,1584,5043,1783,2619,8021>>>>,
<<1,-66,<<7,6258,1128,8454,2314,3635,6565>>>>,
<<1,-67,<<498,4190,3846,1060,8781,9323,9603>>>>,
<<1,-67,<<3,2364,8726,2734,1615,4670,9348>>>>,
<<1,-68,<<208,8056,2985,3816,8739,8124,8262>>>>,
<<1,-68,<<1,3384,9762,7268,568,8449,5181>>>>,
<<1,-69,<<85,2546,2594,640,5658,9141,2813>>>>,
<<1,-70,<<5395,8624,130,6364,9298,3625,4019>>>>,
<<1,-70,<<33,9362,4151,7650,938,9834,1220>>>>,
<<1,-71,<<2121,150,9485,3130,8686,4632,6265>>>>,
<<1,-71,<<13,1740,680,330,53,9531,8796>>>>,
<<1,-72,<<813,2102,9631,6666,9997,1103,6832>>>>,
<<1,-72,<<4,9890,2022,2801,6380,3503,7035>>>>,
<<1,-73,<<304,2085,5017,831,5875,225,8279>>>>,
<<1,-73,<<1,8436,8818,2853,5247,7274,959>>>>,
<<1,-74,<<111,655,5318,3947,2754,6632,2847>>>>,
<<1,-75,<<6650,6319,2718,2471,5848,975,1346>>>>,
<<1,-75,<<39,5870,9480,4657,5689,5720,900>>>>,
<<1,-76,<<2342,4316,4524,6009,9974,6750,8927>>>>,
<<1,-76,<<13,7790,967,7917,7058,6745,5934>>>>,
<<1,-77,<<805,7900,3964,4310,2846,4654,5898>>>>,
<<1,-77,<<4,6848,2581,1885,5249,1073,5731>>>>,
<<1,-78,<<270,7991,7987,7776,64,90,9362>>>>,
<<1,-78,<<1,5563,1712,5734,3448,6437,3042>>>>,
<<1,-79,<<88,9324,718,4819,7065,3560,2417>>>>,
<<1,-80,<<5052,9776,8095,5665,1440,6831,9195>>>>,
<<1,-80,<<28,5478,9650,2574,3793,4501,8752>>>>,
<<1,-81,<<1603,8144,1025,6987,6036,5273,8905>>>>,
<<1,-81,<<8,9598,5704,541,8301,8800,4127>>>>,
<<1,-82,<<497,7698,3558,5657,2326,6689,5998>>>>,
<<1,-82,<<2,7501,958,8871,344,3462,3734>>>>,
<<1,-83,<<151,1049,2246,5441,4524,5185,3560>>>>,
<<1,-84,<<8257,995,8827,5489,2050,1932,229>>>>,
<<1,-84,<<44,8755,4124,627,6587,2293,1088>>>>,
<<1,-85,<<2425,7049,3192,5819,3904,2870,7470>>>>,
<<1,-85,<<13,414,2436,5192,5773,6789,6276>>>>,
<<1,-86,<<697,4023,7247,191,3030,9605,7578>>>>,
<<1,-86,<<3,7095,8708,7607,4005,4838,3284>>>>,
<<1,-87,<<196,2744,4907,9756,6427,7160,2380>>>>,
<<1,-87,<<1,330,2341,6209,2454,8827,1591>>>>,
<<1,-88,<<54,849,9561,3049,5020,374,8244>>>>,
<<1,-89,<<2816,9268,5484,6328,2293,6188,7753>>>>,
<<1,-89,<<14,5954,7593,1846,2602,5576,1076>>>>,
<<1,-90,<<752,3441,2019,8260,8379,2582,8682>>>>,
<<1,-90,<<3,8581,7497,5375,6966,474,7839>>>>,
<<1,-91,<<196,8456,6200,8964,1124,8713,4663>>>>,
<<1,-92,<<9992,1655,8421,1376,2683,8247,210>>>>,
<<1,-92,<<50,4654,8274,8542,3043,8577,51>>>>,
<<1,-93,<<2535,9539,696,1924,8435,603,2742>>>>,
<<1,-93,<<12,6797,6953,4809,6242,1753,163>>>>,
<<1,-94,<<630,8343,521,4409,1650,5125,1925>>>>,
<<1,-94,<<3,1229,4210,5021,8275,4975,8672>>>>,
<<1,-95,<<153,8395,1256,2651,6034,3638,7827>>>>,
<<1,-96,<<7541,1525,7660,568,7959,136,4098>>>>,
<<1,-96,<<36,7861,1012,9758,8721,7512,8605>>>>,
<<1,-97,<<1785,7335,144,4605,4453,9459,2493>>>>,
<<1,-97,<<8,6267,3189,1036,7412,8209,9480>>>>,
<<1,-98,<<414,7467,2553,612,5616,3939,8107>>>>,
<<1,-98,<<1,9844,3409,3447,9069,9348,9943>>>>,
<<1,-99,<<94,4968,6159,2757,4758,8047,3480>>>>,
<<1,-100,<<4478,5242,4610,2250,417,2860,992>>>>,
<<1,-100,<<21,1251,1436,8406,8398,1947,4532>>>>,
<<1,-101,<<991,7894,696,7457,2685,1993,1125>>>>,
<<1,-101,<<4,6345,2993,9100,2676,990,6220>>>>,
<<1,-102,<<215,5595,3205,1175,2376,7005,6754>>>>,
<<1,-103,<<9979,6079,6533,2186,9291,6929,4175>>>>,
<<1,-103,<<45,9889,7679,8765,8383,8326,8636>>>>,
<<1,-104,<<2109,5860,9168,6506,3478,5635,9483>>>>,
<<1,-104,<<9,6328,1320,4047,9741,9112,4929>>>>,
<<1,-105,<<437,8551,4563,8544,2814,1476,9506>>>>,
<<1,-105,<<1,9812,4500,2889,3406,3988,5834>>>>,
<<1,-106,<<89,2452,7040,420,7495,4440,6976>>>>,
<<1,-107,<<4002,300,6279,9136,7508,7026,7993>>>>,
<<1,-107,<<17,8662,563,7496,1462,924,2267>>>>,
<<1,-108,<<794,535,8388,8717,6092,9965,6347>>>>,
<<1,-108,<<3,5135,1143,3135,9186,2521,9718>>>>,
<<1,-109,<<154,7802,3934,5194,6530,9337,9663>>>>,
<<1,-110,<<6788,6069,8882,4326,8900,6051,1541>>>>,
<<1,-110,<<29,6445,7200,3599,6807,4262,2321>>>>,
<<1,-111,<<1288,8944,3493,9116,5540,2705,7440>>>>,
<<1,-111,<<5,5796,2958,8481,240,4340,7175>>>>,
<<1,-112,<<240,5012,7536,5561,3811,8134,3752>>>>,
<<1,-112,<<1,321,9431,4873,6539,9648,6453>>>>,
<<1,-113,<<44,1108,6815,6993,7605,3360,9139>>>>,
<<1,-114,<<1877,582,1944,6543,14,3017,6169>>>>,
<<1,-114,<<7,9536,3652,3078,5720,3995,8373>>>>,
<<1,-115,<<335,5964,7776,7028,3561,1638,7071>>>>,
<<1,-115,<<1,4100,6923,4315,2451,9376,6332>>>>,
<<1,-116,<<58,9987,1273,2855,4474,3792,1850>>>>,
<<1,-117,<<2458,2796,9720,2310,3099,1341,449>>>>,
<<1,-117,<<10,2003,3069,3785,5199,5814,6931>>>>,
<<1,-118,<<421,5012,6833,8244,6263,6970,7905>>>>,
<<1,-118,<<1,7345,7312,733,5169,8094,5300>>>>,
<<1,-119,<<71,890,6232,5144,1385,6333,1968>>>>,
<<1,-120,<<2901,5943,8061,8128,1046,2579,4621>>>>,
<<1,-120,<<11,7950,9910,8203,7727,8303,1685>>>>,
<<1,-121,<<477,5343,7685,355,1734,209,2528>>>>,
<<1,-121,<<1,9255,4184,2138,5289,2500,8437>>>>,
<<1,-122,<<77,3309,9767,6246,1415,6660,3920>>>>,
<<1,-123,<<3093,2399,704,9845,6626,6415,6810>>>>,
<<1,-123,<<12,3236,6496,8326,783,3730,7397>>>>,
<<1,-124,<<489,343,2413,9923,7435,4394,4351>>>>,
<<1,-124,<<1,9329,4199,2647,9199,3495,6301>>>>,
<<1,-125,<<76,1000,7845,705,5092,5024,8101>>>>,
<<1,-126,<<2984,3168,198,8451,3431,4698,4381>>>>,
<<1,-126,<<11,6574,8750,7767,3880,5916,7907>>>>,
<<1,-127,<<453,5987,3571,793,3096,9524,9328>>>>,
<<1,-127,<<1,7581,3463,4537,9585,6471,268>>>>,
<<1,-128,<<67,8816,4612,1156,7013,4016,4815>>>>,
<<1,-129,<<2610,8325,4312,1411,5900,633,9047>>>>>>
===========================================================================
