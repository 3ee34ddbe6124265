------------------------------- MODULE Rfc5114 -------------------------------
(* The groups of RFC 5114, sections 2.1 to 2.3 (tools/gen_rfc5114.py, from    *)
(* OpenSSL): prime, generator and order of the subgroup, as BigNat numbers.   *)
P1 == <<881,656,740,752,946,967,141,668,333,475,986,563,486,665,449,217,991,973,91,757,180,882,496,701,337,40,204,367,1013,659,561,1002,824,273,598,1003,982,959,804,461,410,776,233,290,152,860,75,579,381,759,716,766,899,294,973,368,151,201,274,24,681,299,715,79,704,404,750,120,239,526,393,244,418,413,552,463,352,728,291,331,458,679,422,794,675,705,975,638,713,788,334,373,686,919,301,890,29,56,520,602,911,66,11>>
G1 == <<741,236,555,940,622,343,584,168,380,958,220,573,133,754,264,99,345,487,727,652,943,924,280,659,610,693,552,730,361,640,1008,118,851,583,928,33,588,424,874,41,1016,152,210,628,400,952,658,742,979,757,383,979,841,905,1017,337,657,663,134,110,176,493,33,88,531,316,336,61,617,479,183,345,65,919,673,447,294,844,614,80,255,27,356,511,80,555,293,311,16,382,400,742,751,272,602,413,18,845,63,855,459,308,10>>
Q1 == <<851,392,148,629,971,301,982,313,698,482,498,675,897,673,394,980>>
P2 == <<591,57,193,1016,223,689,448,736,625,531,595,631,463,988,561,1022,994,216,1007,741,629,739,22,463,1019,632,162,672,843,883,851,806,867,485,366,56,267,252,434,186,772,260,814,133,453,174,651,804,668,57,998,930,391,633,539,538,205,288,26,793,408,376,471,197,903,160,67,817,314,894,732,289,10,695,985,609,21,29,346,127,786,61,817,881,495,908,125,463,898,9,307,374,65,453,46,88,475,609,968,194,97,74,872,544,145,92,163,766,179,450,73,743,160,56,672,761,39,751,712,44,698,433,447,211,493,836,920,807,519,72,876,834,439,693,183,229,439,981,254,122,217,894,420,959,493,498,259,74,706,858,298,517,319,411,522,466,530,534,619,119,14,774,777,552,360,719,350,892,929,30,964,616,943,438,421,997,29,645,623,471,266,391,379,86,331,109,509,238,360,313,214,648,287,625,341,670,250,408,269,679,291,932,993,65,173>>
G2 == <<1018,970,401,844,144,302,824,406,624,970,135,752,385,94,704,987,225,262,412,304,1023,115,455,60,858,862,587,426,667,191,999,951,617,192,331,1018,444,120,280,6,364,291,955,427,342,243,465,258,227,627,851,518,1011,971,1013,121,674,986,158,22,119,249,550,871,989,600,281,951,387,56,689,571,267,453,19,42,183,555,143,163,980,696,81,364,689,774,752,673,887,1006,782,652,790,376,770,440,86,525,367,279,666,596,273,611,398,260,691,515,753,815,791,321,690,433,863,822,96,669,333,629,403,258,493,936,34,321,113,905,394,754,289,833,866,553,187,210,705,470,626,832,756,146,400,102,272,410,23,863,618,565,26,576,606,175,101,42,98,95,987,789,850,167,12,476,925,732,938,299,780,105,496,584,221,444,922,66,590,146,616,910,255,1017,140,424,134,989,202,614,905,926,491,435,80,875,255,370,779,892,569,619,813,979,814,256,172>>
Q2 == <<491,220,822,614,154,974,971,826,824,657,309,513,31,452,791,613,1022,868,88,211,13,7,8>>
P3 == <<407,645,481,932,330,706,173,39,1007,693,895,225,873,87,279,440,551,436,529,73,175,102,780,268,181,233,16,5,471,221,806,471,195,452,334,41,918,232,540,920,267,687,16,848,734,533,354,550,1014,533,11,155,96,84,919,253,970,428,111,722,998,736,172,115,37,345,320,916,324,504,406,151,24,361,635,645,758,867,292,601,119,525,941,684,932,111,421,438,316,956,160,290,821,153,293,181,912,429,170,903,714,398,875,253,434,352,780,877,79,983,775,72,191,616,963,738,411,121,235,981,321,558,264,382,468,772,447,433,891,367,39,957,177,184,2,355,839,150,615,999,401,507,246,431,304,679,424,757,378,468,585,49,158,776,423,58,387,603,834,239,938,603,832,68,985,432,769,680,434,344,500,991,250,501,405,856,241,894,512,3,571,215,324,955,300,151,271,55,102,386,751,563,409,598,593,625,977,1006,975,408,182,877,609,675,135>>
G3 == <<601,261,716,61,844,402,38,790,920,1019,636,140,350,276,917,849,328,500,356,995,14,60,73,30,867,203,108,713,285,143,181,97,694,415,220,163,276,482,300,173,505,451,643,832,895,781,526,403,955,334,819,86,265,499,341,440,208,635,537,5,735,756,299,735,185,354,82,120,75,530,332,1016,979,196,951,168,731,642,46,838,389,174,261,515,924,526,1022,111,189,361,741,252,507,496,150,895,225,89,871,969,90,321,315,582,815,987,840,80,797,800,235,266,386,414,590,225,749,181,296,475,707,162,646,738,682,394,990,477,75,773,670,919,99,893,813,351,890,113,915,603,257,665,0,260,787,696,597,98,187,163,908,163,18,164,758,561,894,239,887,752,945,721,198,108,620,910,347,725,11,683,724,319,1023,399,996,478,336,752,269,148,929,642,929,484,1012,257,517,956,801,99,635,306,328,879,526,409,848,925,178,308,787,732,713,716,63>>
Q3 == <<979,382,591,1017,176,194,186,468,691,839,583,710,665,872,297,256,374,486,836,606,416,450,42,217,248,35>>
==============================================================================
