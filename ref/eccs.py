"""ECCS 88 (1995), Table 5.6: factor K1 {angle of the web from the vertical: rows h/d = 0.1, 0.2, ...; columns l/d = 0.1, 0.2, ...},
as read from the repository at the pinned commit with the transposed digits of (0, 0.5, 0.2) corrected."""
K1 = {0: [[0.013, 0.03, 0.041, 0.041, 0.046, 0.05, 0.066, 0.103, 0.193],
          [0.042, 0.096, 0.131, 0.142, 0.142, 0.153, 0.199, 0.311, 0.602],
          [0.086, 0.194, 0.264, 0.285, 0.283, 0.302, 0.388, 0.601, 1.188],
          [0.144, 0.323, 0.438, 0.473, 0.468, 0.494, 0.629, 0.972, 1.935],
          [0.216, 0.484, 0.654, 0.703, 0.695, 0.729, 0.922, 1.42, 2.837],
          [0.302, 0.674, 0.911, 0.98, 0.965, 1.008, 1.266, 1.938, 3.892],
          [0.402, 0.895, 1.208, 1.3, 1.277, 1.329, 1.661, 2.536, 5.098],
          [0.516, 1.146, 1.546, 1.662, 1.631, 1.692, 2.107, 3.208, 6.453]],
      5: [[0.014, 0.031, 0.041, 0.044, 0.044, 0.049, 0.066, 0.107, 0.205],
          [0.05, 0.099, 0.128, 0.134, 0.132, 0.146, 0.198, 0.336, 0.652],
          [0.107, 0.202, 0.253, 0.26, 0.254, 0.28, 0.386, 0.681, 1.548],
          [0.188, 0.338, 0.413, 0.417, 0.404, 0.448, 0.629, 1.158, 2.639],
          [0.295, 0.507, 0.604, 0.601, 0.578, 0.648, 0.934, 1.783], 
          [0.429, 0.706, 0.823, 0.806, 0.772, 0.877, 1.306, 2.586], 
          [0.591, 0.935, 1.066, 1.028, 0.983, 1.135, 1.756, 3.605], 
          [0.78, 1.191, 1.328, 1.264, 1.208, 1.423, 2.299, 4.838]],
      10: [[0.016, 0.031, 0.04, 0.042, 0.042, 0.048, 0.065, 0.111, 0.221],
           [0.056, 0.101, 0.123, 0.125, 0.123, 0.139, 0.2, 0.366, 0.873],
           [0.125, 0.204, 0.238, 0.233, 0.226, 0.264, 0.402, 0.786], 
           [0.222, 0.338, 0.375, 0.356, 0.345, 0.418, 0.689, 1.445], 
           [0.349, 0.494, 0.526, 0.486, 0.473, 0.605, 1.082, 2.428], 
           [0.502, 0.668, 0.682, 0.615, 0.608, 0.837, 1.607], 
           [0.677, 0.851, 0.834, 0.736, 0.752, 1.128, 2.308], 
           [0.869, 1.035, 0.975, 0.844, 0.907, 1.494, 3.2]],
      15: [[0.017, 0.031, 0.04, 0.041, 0.041, 0.047, 0.066, 0.115],
           [0.062, 0.102, 0.118, 0.115, 0.113, 0.134, 0.209, 0.403],
           [0.139, 0.202, 0.218, 0.204, 0.2, 0.254, 0.44, 0.945],
           [0.244, 0.321, 0.325, 0.293, 0.294, 0.414, 0.796], 
           [0.37, 0.448, 0.426, 0.371, 0.396, 0.636, 1.329], 
           [0.506, 0.568, 0.508, 0.434, 0.513, 0.941], 
           [0.646, 0.668, 0.561, 0.483, 0.664, 1.349], 
           [0.766, 0.735, 0.578, 0.527, 0.861]],
      20: [[0.018, 0.032, 0.039, 0.039, 0.039, 0.046, 0.066, 0.111],
           [0.068, 0.101, 0.111, 0.106, 0.104, 0.131, 0.221, 0.452],
           [0.148, 0.193, 0.194, 0.174, 0.177, 0.255, 0.492], 
           [0.249, 0.289, 0.267, 0.23, 0.259, 0.444, 0.931], 
           [0.356, 0.372, 0.315, 0.27, 0.364, 0.725], 
           [0.448, 0.42, 0.326, 0.303, 0.512],
           [0.509, 0.423, 0.301, 0.346],
           [0.521, 0.372, 0.259, 0.413]],      
      25: [[0.019, 0.032, 0.038, 0.038, 0.038, 0.045, 0.068, 0.126],
           [0.072, 0.099, 0.103, 0.095, 0.095, 0.129, 0.236, 0.513],
           [0.151, 0.178, 0.166, 0.144, 0.16, 0.268, 0.557], 
           [0.238, 0.244, 0.204, 0.176, 0.247, 0.494],
           [0.306, 0.272, 0.203, 0.204, 0.376],
           [0.333, 0.248, 0.172, 0.241],
           [0.3, 0.174, 0.142],
           [0.204, 0.081]],
      30: [[0.02, 0.032, 0.037, 0.036, 0.036, 0.044, 0.07, 0.133],
           [0.075, 0.095, 0.094, 0.084, 0.087, 0.132, 0.256], 
           [0.148, 0.157, 0.135, 0.116, 0.152, 0.291], 
           [0.208, 0.186, 0.139, 0.139, 0.253], 
           [0.226, 0.161, 0.112, 0.176], 
           [0.18, 0.089, 0.093],
           [0.077]],
      35: [[0.021, 0.032, 0.036, 0.034, 0.034, 0.043, 0.072, 0.142],
           [0.076, 0.089, 0.083, 0.072, 0.082, 0.137, 0.281], 
           [0.137, 0.13, 0.102, 0.093, 0.151], 
           [0.162, 0.119, 0.082, 0.12],
           [0.123, 0.059],
           [0.032]],
      40: [[0.023, 0.032, 0.034, 0.032, 0.032, 0.043, 0.075, 0.155],
           [0.075, 0.081, 0.07, 0.06, 0.077, 0.146], 
           [0.116, 0.096, 0.068, 0.078], 
           [0.1, 0.053, 0.048],
           [0.024]],
      45: [[0.024, 0.031, 0.032, 0.029, 0.03, 0.043, 0.079], 
           [0.071, 0.069, 0.056, 0.05, 0.073], 
           [0.086, 0.057, 0.041],  
           [0.032]]
      }
