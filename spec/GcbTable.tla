------------------------------- MODULE GcbTable -------------------------------
(* Generated by tools/gen_gcb.pl: Grapheme_Cluster_Break (Unicode 13) of the code points from
   GcbLo[i] up to GcbLo[i+1]-1 is GcbCls[i].  "HS": Hangul syllable (LV or LVT).             *)
GcbLo ==
  << 0,10,11,13,14,32,127,160,169,170,173,174,175,768,880,1155,1162,1425,1470,1471,1472,1473,1475,1476,1478,1479,
     1480,1536,1542,1552,1563,1564,1565,1611,1632,1648,1649,1750,1757,1758,1759,1765,1767,1769,1770,1774,1807,1808,
     1809,1810,1840,1867,1958,1969,2027,2036,2045,2046,2070,2074,2075,2084,2085,2088,2089,2094,2137,2140,2259,2274,
     2275,2307,2308,2362,2363,2364,2365,2366,2369,2377,2381,2382,2384,2385,2392,2402,2404,2433,2434,2436,2492,2493,
     2494,2495,2497,2501,2503,2505,2507,2509,2510,2519,2520,2530,2532,2558,2559,2561,2563,2564,2620,2621,2622,2625,
     2627,2631,2633,2635,2638,2641,2642,2672,2674,2677,2678,2689,2691,2692,2748,2749,2750,2753,2758,2759,2761,2762,
     2763,2765,2766,2786,2788,2810,2816,2817,2818,2820,2876,2877,2878,2880,2881,2885,2887,2889,2891,2893,2894,2901,
     2904,2914,2916,2946,2947,3006,3007,3008,3009,3011,3014,3017,3018,3021,3022,3031,3032,3072,3073,3076,3077,3134,
     3137,3141,3142,3145,3146,3150,3157,3159,3170,3172,3201,3202,3204,3260,3261,3262,3263,3264,3266,3267,3269,3270,
     3271,3273,3274,3276,3278,3285,3287,3298,3300,3328,3330,3332,3387,3389,3390,3391,3393,3397,3398,3401,3402,3405,
     3406,3407,3415,3416,3426,3428,3457,3458,3460,3530,3531,3535,3536,3538,3541,3542,3543,3544,3551,3552,3570,3572,
     3633,3634,3635,3636,3643,3655,3663,3761,3762,3763,3764,3773,3784,3790,3864,3866,3893,3894,3895,3896,3897,3898,
     3902,3904,3953,3967,3968,3973,3974,3976,3981,3992,3993,4029,4038,4039,4141,4145,4146,4152,4153,4155,4157,4159,
     4182,4184,4186,4190,4193,4209,4213,4226,4227,4228,4229,4231,4237,4238,4253,4254,4352,4448,4520,4608,4957,4960,
     5906,5909,5938,5941,5970,5972,6002,6004,6068,6070,6071,6078,6086,6087,6089,6100,6109,6110,6155,6158,6159,6277,
     6279,6313,6314,6432,6435,6439,6441,6444,6448,6450,6451,6457,6460,6679,6681,6683,6684,6741,6742,6743,6744,6751,
     6752,6753,6754,6755,6757,6765,6771,6781,6783,6784,6832,6849,6912,6916,6917,6964,6971,6972,6973,6978,6979,6981,
     7019,7028,7040,7042,7043,7073,7074,7078,7080,7082,7083,7086,7142,7143,7144,7146,7149,7150,7151,7154,7156,7204,
     7212,7220,7222,7224,7376,7379,7380,7393,7394,7401,7405,7406,7412,7413,7415,7416,7418,7616,7674,7675,7680,8203,
     8204,8205,8206,8208,8232,8239,8252,8253,8265,8266,8288,8304,8400,8433,8482,8483,8505,8506,8596,8602,8617,8619,
     8986,8988,9000,9001,9096,9097,9167,9168,9193,9204,9208,9211,9410,9411,9642,9644,9654,9655,9664,9665,9723,9727,
     9728,9734,9735,9747,9748,9862,9872,9990,9992,10003,10004,10005,10006,10007,10013,10014,10017,10018,10024,
     10025,10035,10037,10052,10053,10055,10056,10060,10061,10062,10063,10067,10070,10071,10072,10083,10088,10133,
     10136,10145,10146,10160,10161,10175,10176,10548,10550,11013,11016,11035,11037,11088,11089,11093,11094,11503,
     11506,11647,11648,11744,11776,12330,12336,12337,12349,12350,12441,12443,12951,12952,12953,12954,42607,42611,
     42612,42622,42654,42656,42736,42738,43010,43011,43014,43015,43019,43020,43043,43045,43047,43048,43052,43053,
     43136,43138,43188,43204,43206,43232,43250,43263,43264,43302,43310,43335,43346,43348,43360,43389,43392,43395,
     43396,43443,43444,43446,43450,43452,43454,43457,43493,43494,43561,43567,43569,43571,43573,43575,43587,43588,
     43596,43597,43598,43644,43645,43696,43697,43698,43701,43703,43705,43710,43712,43713,43714,43755,43756,43758,
     43760,43765,43766,43767,44003,44005,44006,44008,44009,44011,44012,44013,44014,44032,55204,55216,55239,55243,
     55292,55296,57344,64286,64287,65024,65040,65056,65072,65279,65280,65438,65440,65520,65532,66045,66046,66272,
     66273,66422,66427,68097,68100,68101,68103,68108,68112,68152,68155,68159,68160,68325,68327,68900,68904,69291,
     69293,69446,69457,69632,69633,69634,69635,69688,69703,69759,69762,69763,69808,69811,69815,69817,69819,69821,
     69822,69837,69838,69888,69891,69927,69932,69933,69941,69957,69959,70003,70004,70016,70018,70019,70067,70070,
     70079,70081,70082,70084,70089,70093,70094,70095,70096,70188,70191,70194,70196,70197,70198,70200,70206,70207,
     70367,70368,70371,70379,70400,70402,70404,70459,70461,70462,70463,70464,70465,70469,70471,70473,70475,70478,
     70487,70488,70498,70500,70502,70509,70512,70517,70709,70712,70720,70722,70725,70726,70727,70750,70751,70832,
     70833,70835,70841,70842,70843,70845,70846,70847,70849,70850,70852,71087,71088,71090,71094,71096,71100,71102,
     71103,71105,71132,71134,71216,71219,71227,71229,71230,71231,71233,71339,71340,71341,71342,71344,71350,71351,
     71352,71453,71456,71458,71462,71463,71468,71724,71727,71736,71737,71739,71984,71985,71990,71991,71993,71995,
     71997,71998,71999,72000,72001,72002,72003,72004,72145,72148,72152,72154,72156,72160,72161,72164,72165,72193,
     72203,72243,72249,72250,72251,72255,72263,72264,72273,72279,72281,72284,72324,72330,72343,72344,72346,72751,
     72752,72759,72760,72766,72767,72768,72850,72872,72873,72874,72881,72882,72884,72885,72887,73009,73015,73018,
     73019,73020,73022,73023,73030,73031,73032,73098,73103,73104,73106,73107,73109,73110,73111,73112,73459,73461,
     73463,78896,78905,92912,92917,92976,92983,94031,94032,94033,94088,94095,94099,94180,94181,94192,94194,113821,
     113823,113824,113828,119141,119142,119143,119146,119149,119150,119155,119163,119171,119173,119180,119210,
     119214,119362,119365,121344,121399,121403,121453,121461,121462,121476,121477,121499,121504,121505,121520,
     122880,122887,122888,122905,122907,122914,122915,122917,122918,122923,123184,123191,123628,123632,125136,
     125143,125252,125259,126976,127232,127245,127248,127279,127280,127340,127346,127358,127360,127374,127375,
     127377,127387,127405,127462,127488,127489,127504,127514,127515,127535,127536,127538,127547,127548,127552,
     127561,127995,128000,128318,128326,128592,128640,128768,128884,128896,128981,129024,129036,129040,129096,
     129104,129114,129120,129160,129168,129198,129280,129292,129339,129340,129350,129351,129792,130048,131070,
     917504,917536,917632,917760,918000,921600 >>
GcbCls ==
  << "CN","LF","CN","CR","CN","XX","CN","XX","XP","XX","CN","XP","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX",
     "XX","EX","XX","EX","XX","PP","XX","EX","XX","CN","XX","EX","XX","EX","XX","EX","PP","XX","EX","XX","EX","XX",
     "EX","XX","PP","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX",
     "EX","XX","EX","PP","EX","SM","XX","EX","SM","EX","XX","SM","EX","SM","EX","SM","XX","EX","XX","EX","XX","EX",
     "SM","XX","EX","XX","EX","SM","EX","XX","SM","XX","SM","EX","XX","EX","XX","EX","XX","EX","XX","EX","SM","XX",
     "EX","XX","SM","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","SM","XX","EX","XX","SM","EX",
     "XX","EX","SM","XX","SM","EX","XX","EX","XX","EX","XX","EX","SM","XX","EX","XX","EX","SM","EX","XX","SM","XX",
     "SM","EX","XX","EX","XX","EX","XX","EX","XX","EX","SM","EX","SM","XX","SM","XX","SM","EX","XX","EX","XX","EX",
     "SM","EX","XX","EX","SM","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","SM","XX","EX","XX","SM","EX","SM",
     "EX","SM","XX","EX","SM","XX","SM","EX","XX","EX","XX","EX","XX","EX","SM","XX","EX","XX","EX","SM","EX","XX",
     "SM","XX","SM","EX","PP","XX","EX","XX","EX","XX","EX","SM","XX","EX","XX","EX","SM","EX","XX","EX","XX","SM",
     "EX","XX","SM","XX","EX","XX","SM","EX","XX","EX","XX","EX","XX","SM","EX","XX","EX","XX","EX","XX","EX","XX",
     "EX","XX","EX","XX","SM","XX","EX","SM","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","SM","EX","XX",
     "EX","SM","EX","XX","SM","EX","XX","EX","XX","EX","XX","EX","XX","SM","EX","XX","EX","XX","EX","XX","L","V",
     "T","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","SM","EX","SM","EX","SM","EX","XX","EX","XX",
     "EX","CN","XX","EX","XX","EX","XX","EX","SM","EX","SM","XX","SM","EX","SM","EX","XX","EX","SM","EX","XX","SM",
     "EX","SM","EX","XX","EX","XX","EX","XX","EX","SM","EX","XX","EX","XX","EX","XX","EX","SM","XX","EX","SM","EX",
     "SM","EX","SM","XX","EX","XX","EX","SM","XX","SM","EX","SM","EX","SM","EX","XX","EX","SM","EX","SM","EX","SM",
     "EX","SM","XX","SM","EX","SM","EX","XX","EX","XX","EX","SM","EX","XX","EX","XX","EX","XX","SM","EX","XX","EX",
     "XX","EX","XX","CN","EX","ZWJ","CN","XX","CN","XX","XP","XX","XP","XX","CN","XX","EX","XX","XP","XX","XP",
     "XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP",
     "XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP",
     "XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP",
     "XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","EX","XX","EX","XX","EX","XX","EX",
     "XP","XX","XP","XX","EX","XX","XP","XX","XP","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX",
     "EX","XX","SM","EX","SM","XX","EX","XX","SM","XX","SM","EX","XX","EX","XX","EX","XX","EX","XX","EX","SM","XX",
     "L","XX","EX","SM","XX","EX","SM","EX","SM","EX","SM","XX","EX","XX","EX","SM","EX","SM","EX","XX","EX","XX",
     "EX","SM","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","SM","EX","SM","XX","SM","EX","XX",
     "SM","EX","SM","EX","SM","XX","SM","EX","XX","HS","XX","V","XX","T","XX","CN","XX","EX","XX","EX","XX","EX",
     "XX","CN","XX","EX","XX","CN","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX",
     "XX","EX","XX","EX","XX","EX","XX","EX","XX","SM","EX","SM","XX","EX","XX","EX","SM","XX","SM","EX","SM","EX",
     "XX","PP","XX","PP","XX","EX","XX","EX","SM","EX","XX","SM","XX","EX","XX","EX","SM","XX","SM","EX","SM","XX",
     "PP","XX","EX","XX","SM","EX","XX","SM","EX","SM","EX","SM","EX","XX","EX","XX","EX","SM","EX","XX","EX","SM",
     "XX","EX","XX","EX","SM","EX","SM","XX","SM","XX","SM","XX","EX","XX","SM","XX","EX","XX","EX","XX","SM","EX",
     "SM","EX","SM","EX","XX","EX","XX","EX","SM","EX","SM","EX","SM","EX","SM","EX","SM","EX","XX","EX","SM","EX",
     "XX","SM","EX","SM","EX","XX","EX","XX","SM","EX","SM","EX","SM","EX","XX","EX","SM","EX","SM","EX","SM","EX",
     "XX","EX","XX","EX","SM","EX","XX","SM","EX","SM","EX","XX","EX","SM","XX","SM","XX","EX","SM","EX","PP","SM",
     "PP","SM","EX","XX","SM","EX","XX","EX","SM","EX","XX","SM","XX","EX","XX","EX","SM","PP","EX","XX","EX","XX",
     "EX","SM","EX","XX","PP","EX","SM","EX","XX","SM","EX","XX","EX","SM","EX","XX","EX","XX","SM","EX","SM","EX",
     "SM","EX","XX","EX","XX","EX","XX","EX","XX","EX","PP","EX","XX","SM","XX","EX","XX","SM","EX","SM","EX","XX",
     "EX","SM","XX","CN","XX","EX","XX","EX","XX","EX","XX","SM","XX","EX","XX","EX","XX","SM","XX","EX","XX","CN",
     "XX","EX","SM","EX","XX","SM","EX","CN","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX",
     "EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX","EX","XX",
     "EX","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","RI","XX","XP","XX","XP",
     "XX","XP","XX","XP","XX","XP","XX","XP","EX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP",
     "XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","XP","XX","CN","EX","CN","EX","CN","XX" >>
=============================================================================
