"""Frozen copies of the ITU-R P.838-2 (2003) and P.838-3 (2005) tables:
rows f [GHz], k_H, k_V, alpha_H, alpha_V.  Independent of the package."""
import numpy as np

T2003 = np.array([
    [1.0, 2.0, 4.0, 6.0, 7.0, 8.0, 10.0, 12.0, 15.0, 20.0, 25.0, 30.0, 35.0, 40.0, 45.0, 50.0, 60.0, 70.0, 80.0, 90.0, 100.0],
    [3.87e-05, 0.0002, 0.0006, 0.0018, 0.003, 0.0045, 0.0101, 0.0188, 0.0367, 0.0751, 0.124, 0.187, 0.263, 0.35, 0.442, 0.536, 0.707, 0.851, 0.975, 1.06, 1.12],
    [3.52e-05, 0.0001, 0.0006, 0.0016, 0.0026, 0.004, 0.0089, 0.0168, 0.0335, 0.0691, 0.113, 0.167, 0.233, 0.31, 0.393, 0.479, 0.642, 0.784, 0.906, 0.999, 1.06],
    [0.912, 0.963, 1.121, 1.308, 1.332, 1.327, 1.276, 1.217, 1.154, 1.099, 1.061, 1.021, 0.979, 0.939, 0.903, 0.873, 0.826, 0.793, 0.769, 0.753, 0.743],
    [0.88, 0.923, 1.075, 1.265, 1.312, 1.31, 1.264, 1.2, 1.128, 1.065, 1.03, 1.0, 0.963, 0.929, 0.897, 0.868, 0.824, 0.793, 0.769, 0.754, 0.744],
])
T2005 = np.array([
    [1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 5.0, 5.5, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0, 13.0, 14.0, 15.0, 16.0, 17.0, 18.0, 19.0, 20.0, 21.0, 22.0, 23.0, 24.0, 25.0, 26.0, 27.0, 28.0, 29.0, 30.0, 31.0, 32.0, 33.0, 34.0, 35.0, 36.0, 37.0, 38.0, 39.0, 40.0, 41.0, 42.0, 43.0, 44.0, 45.0, 46.0, 47.0, 48.0, 49.0, 50.0, 51.0, 52.0, 53.0, 54.0, 55.0, 56.0, 57.0, 58.0, 59.0, 60.0, 61.0, 62.0, 63.0, 64.0, 65.0, 66.0, 67.0, 68.0, 69.0, 70.0, 71.0, 72.0, 73.0, 74.0, 75.0, 76.0, 77.0, 78.0, 79.0, 80.0, 81.0, 82.0, 83.0, 84.0, 85.0, 86.0, 87.0, 88.0, 89.0, 90.0, 91.0, 92.0, 93.0, 94.0, 95.0, 96.0, 97.0, 98.0, 99.0, 100.0],
    [2.59e-05, 4.43e-05, 8.47e-05, 0.0001321, 0.000139, 0.0001155, 0.0001071, 0.000134, 0.0002162, 0.0003909, 0.0007056, 0.001915, 0.004115, 0.007535, 0.01217, 0.01772, 0.02386, 0.03041, 0.03738, 0.04481, 0.05282, 0.06146, 0.07078, 0.08084, 0.09164, 0.1032, 0.1155, 0.1286, 0.1425, 0.1571, 0.1724, 0.1884, 0.2051, 0.2224, 0.2403, 0.2588, 0.2778, 0.2972, 0.3171, 0.3374, 0.358, 0.3789, 0.4001, 0.4215, 0.4431, 0.4647, 0.4865, 0.5084, 0.5302, 0.5521, 0.5738, 0.5956, 0.6172, 0.6386, 0.66, 0.6811, 0.702, 0.7228, 0.7433, 0.7635, 0.7835, 0.8032, 0.8226, 0.8418, 0.8606, 0.8791, 0.8974, 0.9153, 0.9328, 0.9501, 0.967, 0.9836, 0.9999, 1.0159, 1.0315, 1.0468, 1.0618, 1.0764, 1.0908, 1.1048, 1.1185, 1.132, 1.1451, 1.1579, 1.1704, 1.1827, 1.1946, 1.2063, 1.2177, 1.2289, 1.2398, 1.2504, 1.2607, 1.2708, 1.2807, 1.2903, 1.2997, 1.3089, 1.3179, 1.3266, 1.3351, 1.3434, 1.3515, 1.3594, 1.3671],
    [3.08e-05, 5.74e-05, 9.98e-05, 0.0001464, 0.0001942, 0.0002346, 0.0002461, 0.0002347, 0.0002428, 0.0003115, 0.0004878, 0.001425, 0.00345, 0.006691, 0.01129, 0.01731, 0.02455, 0.03266, 0.04126, 0.05008, 0.05899, 0.06797, 0.07708, 0.08642, 0.09611, 0.1063, 0.117, 0.1284, 0.1404, 0.1533, 0.1669, 0.1813, 0.1964, 0.2124, 0.2291, 0.2465, 0.2646, 0.2833, 0.3026, 0.3224, 0.3427, 0.3633, 0.3844, 0.4058, 0.4274, 0.4492, 0.4712, 0.4932, 0.5153, 0.5375, 0.5596, 0.5817, 0.6037, 0.6255, 0.6472, 0.6687, 0.6901, 0.7112, 0.7321, 0.7527, 0.773, 0.7931, 0.8129, 0.8324, 0.8515, 0.8704, 0.8889, 0.9071, 0.925, 0.9425, 0.9598, 0.9767, 0.9932, 1.0094, 1.0253, 1.0409, 1.0561, 1.0711, 1.0857, 1.1, 1.1139, 1.1276, 1.141, 1.1541, 1.1668, 1.1793, 1.1915, 1.2034, 1.2151, 1.2265, 1.2376, 1.2484, 1.259, 1.2694, 1.2795, 1.2893, 1.2989, 1.3083, 1.3175, 1.3265, 1.3352, 1.3437, 1.352, 1.3601, 1.368],
    [0.9691, 1.0185, 1.0664, 1.1209, 1.2322, 1.4189, 1.6009, 1.6948, 1.6969, 1.6499, 1.59, 1.481, 1.3905, 1.3155, 1.2571, 1.214, 1.1825, 1.1586, 1.1396, 1.1233, 1.1086, 1.0949, 1.0818, 1.0691, 1.0568, 1.0447, 1.0329, 1.0214, 1.0101, 0.9991, 0.9884, 0.978, 0.9679, 0.958, 0.9485, 0.9392, 0.9302, 0.9214, 0.9129, 0.9047, 0.8967, 0.889, 0.8816, 0.8743, 0.8673, 0.8605, 0.8539, 0.8476, 0.8414, 0.8355, 0.8297, 0.8241, 0.8187, 0.8134, 0.8084, 0.8034, 0.7987, 0.7941, 0.7896, 0.7853, 0.7811, 0.7771, 0.7731, 0.7693, 0.7656, 0.7621, 0.7586, 0.7552, 0.752, 0.7488, 0.7458, 0.7428, 0.74, 0.7372, 0.7345, 0.7318, 0.7293, 0.7268, 0.7244, 0.7221, 0.7199, 0.7177, 0.7156, 0.7135, 0.7115, 0.7096, 0.7077, 0.7058, 0.704, 0.7023, 0.7006, 0.699, 0.6974, 0.6959, 0.6944, 0.6929, 0.6915, 0.6901, 0.6888, 0.6875, 0.6862, 0.685, 0.6838, 0.6826, 0.6815],
    [0.8592, 0.8957, 0.949, 1.0085, 1.0688, 1.1387, 1.2476, 1.3987, 1.5317, 1.5882, 1.5728, 1.4745, 1.3797, 1.2895, 1.2156, 1.1617, 1.1216, 1.0901, 1.0646, 1.044, 1.0273, 1.0137, 1.0025, 0.993, 0.9847, 0.9771, 0.97, 0.963, 0.9561, 0.9491, 0.9421, 0.9349, 0.9277, 0.9203, 0.9129, 0.9055, 0.8981, 0.8907, 0.8834, 0.8761, 0.869, 0.8621, 0.8552, 0.8486, 0.8421, 0.8357, 0.8296, 0.8236, 0.8179, 0.8123, 0.8069, 0.8017, 0.7967, 0.7918, 0.7871, 0.7826, 0.7783, 0.7741, 0.77, 0.7661, 0.7623, 0.7587, 0.7552, 0.7518, 0.7486, 0.7454, 0.7424, 0.7395, 0.7366, 0.7339, 0.7313, 0.7287, 0.7262, 0.7238, 0.7215, 0.7193, 0.7171, 0.715, 0.713, 0.711, 0.7091, 0.7073, 0.7055, 0.7038, 0.7021, 0.7004, 0.6988, 0.6973, 0.6958, 0.6943, 0.6929, 0.6915, 0.6902, 0.6889, 0.6876, 0.6864, 0.6852, 0.684, 0.6828, 0.6817, 0.6806, 0.6796, 0.6785, 0.6775, 0.6765],
])
