---------------------------- MODULE QuadTable ----------------------------
(* Generated by tools/mkde.py.  DETab: node and weight of int_0^inf f(u) du, u = exp(t - exp(-t)), step 3/10.
   GLTab: sine, cosine and weight of the Gauss-Legendre rule for int_0^{pi/2} f dtheta.  SpecTest.tla integrates
   known functions with both tables. *)
EXTENDS Integers
DETab == <<
<<<<1,-2,<<94,2060,3004,4129,6398,5661,56>>>>, <<1,-2,<<595,9154,1746,4726,6820,3064,1229>>>>>>,
<<<<1,-1,<<2,3185,6629,6670,4560,8919,1447>>>>, <<1,-1,<<11,454,6323,3237,6282,6623,3844>>>>>>,
<<<<1,-1,<<148,432,3556,6925,1955,7209,9610>>>>, <<1,-1,<<533,9849,7995,4604,7115,5152,1508>>>>>>,
<<<<1,-1,<<3479,370,7323,1348,6849,6334,3308>>>>, <<1,-1,<<9566,8334,8360,8181,3744,3375,9204>>>>>>,
<<<<1,0,<<3,8988,9393,9139,8285,8092,3034>>>>, <<1,0,<<8,2457,4833,1621,6287,6398,4761>>>>>>,
<<<<1,0,<<25,2455,8532,371,5417,9581,3181>>>>, <<1,0,<<41,5165,3473,7490,3319,9719,2124>>>>>>,
<<<<1,0,<<108,8775,568,5374,771,7740,4029>>>>, <<1,0,<<141,1090,6644,5018,7636,5795,1383>>>>>>,
<<<<1,0,<<347,4904,7717,5982,4362,7393,1896>>>>, <<1,0,<<360,6537,4078,632,5533,7435,1009>>>>>>,
<<<<1,0,<<887,3340,9759,2732,4518,6039,783>>>>, <<1,0,<<751,2486,7171,3199,773,7646,361>>>>>>,
<<<<1,0,<<1920,7702,6527,2570,8702,5353,20>>>>, <<1,0,<<1354,616,7755,4253,9649,5007,7788>>>>>>,
<<<<1,0,<<3678,7944,1171,4423,2159,5523,7701>>>>, <<1,0,<<2207,2766,4702,8653,9295,7314,2620>>>>>>,
<<<<1,0,<<6435,967,2691,2332,5200,1944,1826>>>>, <<1,0,<<3360,7000,9021,7481,9606,4588,7525>>>>>>,
<<<<1,1,<<1,525,2113,1603,6141,7521,626>>>>, <<1,0,<<4890,4709,2758,7589,3444,7455,5013>>>>>>,
<<<<1,1,<<1,6379,2523,4915,4665,4572,1766>>>>, <<1,0,<<6911,5678,2106,6765,9420,5499,8318>>>>>>,
<<<<1,1,<<2,4566,6757,6996,1225,2547,8229>>>>, <<1,0,<<9589,8048,9533,9186,1422,8371,7230>>>>>>,
<<<<1,1,<<3,5853,9926,8624,9738,2660,3893>>>>, <<1,1,<<1,3156,2299,4488,7982,2498,8803>>>>>>,
<<<<1,1,<<5,1279,2509,1543,8351,3174,2944>>>>, <<1,1,<<1,7926,6962,2417,8825,3558,6773>>>>>>,
<<<<1,1,<<7,2249,7354,281,5242,2829,1432>>>>, <<1,1,<<2,4329,1539,8274,104,2215,4918>>>>>>,
<<<<1,1,<<10,671,9428,4538,2926,8431,7348>>>>, <<1,1,<<3,2941,4086,3619,5434,1398,1783>>>>>>,
<<<<1,1,<<13,9125,9419,7106,4797,3111,1719>>>>, <<1,1,<<4,4542,7916,7098,9263,7287,774>>>>>>,
<<<<1,1,<<19,1100,2242,3304,838,6834,9369>>>>, <<1,1,<<6,184,3632,4861,3611,8269,2261>>>>>>,
<<<<1,1,<<26,1308,5585,1636,6279,7811,3055>>>>, <<1,1,<<8,1283,9337,4705,641,860,6691>>>>>>,
<<<<1,1,<<35,6117,7271,9289,307,7140,8494>>>>, <<1,1,<<10,9754,4567,3878,847,9004,4981>>>>>>,
<<<<1,1,<<48,4125,211,6271,3944,201,984>>>>, <<1,1,<<14,8177,3910,9093,6332,5590,6249>>>>>>>>

GLTab == <<
<<<<1,0,<<9999,9285,6002,8906,4675,9145,6571>>>>, <<1,0,<<37,7993,9573,8572,430,2653,2425>>>>, <<1,0,<<96,9277,9218,9758,487,158,9360>>>>>>,
<<<<1,0,<<9998,303,2022,128,2546,9076,123>>>>, <<1,0,<<198,4684,2559,7120,2855,5974,8473>>>>, <<1,0,<<224,850,228,3433,3989,3017,663>>>>>>,
<<<<1,0,<<9988,2512,815,2169,9221,2586,7808>>>>, <<1,0,<<484,6006,6327,5152,6878,4434,6980>>>>, <<1,0,<<347,7541,9127,1444,137,6731,138>>>>>>,
<<<<1,0,<<9960,2351,2112,5234,160,2765,9269>>>>, <<1,0,<<890,9075,8886,8449,8513,1329,5682>>>>, <<1,0,<<465,7299,9684,6516,8027,8072,798>>>>>>,
<<<<1,0,<<9900,2387,7490,3128,5539,2778,1598>>>>, <<1,0,<<1408,9968,7718,570,7122,428,4847>>>>, <<1,0,<<576,619,1791,9275,5502,2078,7261>>>>>>,
<<<<1,0,<<9792,4258,5803,4396,6592,4094,449>>>>, <<1,0,<<2026,9178,1157,9766,6366,169,6844>>>>, <<1,0,<<676,9359,4570,1255,271,3564,9852>>>>>>,
<<<<1,0,<<9620,4774,5706,5377,8632,1692,2593>>>>, <<1,0,<<2728,8117,3738,6234,6813,3303,5081>>>>, <<1,0,<<766,6951,75,9055,85,5690,8608>>>>>>,
<<<<1,0,<<9369,4064,6893,6261,3546,3102,2383>>>>, <<1,0,<<3494,8851,7978,1352,7870,2330,9635>>>>, <<1,0,<<843,8653,2416,6587,5006,4844,1548>>>>>>,
<<<<1,0,<<9027,4082,736,3180,5016,5433,3755>>>>, <<1,0,<<4301,8485,6284,2709,8163,9038,4693>>>>, <<1,0,<<907,1793,9551,3914,512,7967,9502>>>>>>,
<<<<1,0,<<8587,5357,363,4021,2396,9384,812>>>>, <<1,0,<<5123,8882,2466,149,2122,5376,2715>>>>, <<1,0,<<955,5976,5977,1957,3887,2449,2013>>>>>>,
<<<<1,0,<<8048,9741,2349,6559,7835,5386,3222>>>>, <<1,0,<<5934,1398,3314,2018,8378,1579,9656>>>>, <<1,0,<<988,3250,7101,4055,1896,1529,6690>>>>>>,
<<<<1,0,<<7417,7174,610,6010,5901,7245,2422>>>>, <<1,0,<<6706,5243,2211,7375,1264,678,9692>>>>, <<1,0,<<1004,8242,3653,7231,1157,9556,2018>>>>>>,
<<<<1,0,<<6706,5243,2211,7375,1264,678,9692>>>>, <<1,0,<<7417,7174,610,6010,5901,7245,2422>>>>, <<1,0,<<1004,8242,3653,7231,1157,9556,2018>>>>>>,
<<<<1,0,<<5934,1398,3314,2018,8378,1579,9656>>>>, <<1,0,<<8048,9741,2349,6559,7835,5386,3222>>>>, <<1,0,<<988,3250,7101,4055,1896,1529,6690>>>>>>,
<<<<1,0,<<5123,8882,2466,149,2122,5376,2715>>>>, <<1,0,<<8587,5357,363,4021,2396,9384,812>>>>, <<1,0,<<955,5976,5977,1957,3887,2449,2013>>>>>>,
<<<<1,0,<<4301,8485,6284,2709,8163,9038,4693>>>>, <<1,0,<<9027,4082,736,3180,5016,5433,3755>>>>, <<1,0,<<907,1793,9551,3914,512,7967,9502>>>>>>,
<<<<1,0,<<3494,8851,7978,1352,7870,2330,9635>>>>, <<1,0,<<9369,4064,6893,6261,3546,3102,2383>>>>, <<1,0,<<843,8653,2416,6587,5006,4844,1548>>>>>>,
<<<<1,0,<<2728,8117,3738,6234,6813,3303,5081>>>>, <<1,0,<<9620,4774,5706,5377,8632,1692,2593>>>>, <<1,0,<<766,6951,75,9055,85,5690,8608>>>>>>,
<<<<1,0,<<2026,9178,1157,9766,6366,169,6844>>>>, <<1,0,<<9792,4258,5803,4396,6592,4094,449>>>>, <<1,0,<<676,9359,4570,1255,271,3564,9852>>>>>>,
<<<<1,0,<<1408,9968,7718,570,7122,428,4847>>>>, <<1,0,<<9900,2387,7490,3128,5539,2778,1598>>>>, <<1,0,<<576,619,1791,9275,5502,2078,7261>>>>>>,
<<<<1,0,<<890,9075,8886,8449,8513,1329,5682>>>>, <<1,0,<<9960,2351,2112,5234,160,2765,9269>>>>, <<1,0,<<465,7299,9684,6516,8027,8072,798>>>>>>,
<<<<1,0,<<484,6006,6327,5152,6878,4434,6980>>>>, <<1,0,<<9988,2512,815,2169,9221,2586,7808>>>>, <<1,0,<<347,7541,9127,1444,137,6731,138>>>>>>,
<<<<1,0,<<198,4684,2559,7120,2855,5974,8473>>>>, <<1,0,<<9998,303,2022,128,2546,9076,123>>>>, <<1,0,<<224,850,228,3433,3989,3017,663>>>>>>,
<<<<1,0,<<37,7993,9573,8572,430,2653,2425>>>>, <<1,0,<<9999,9285,6002,8906,4675,9145,6571>>>>, <<1,0,<<96,9277,9218,9758,487,158,9360>>>>>>>>
===========================================================================
