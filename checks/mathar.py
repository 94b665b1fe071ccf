"""Coefficients of Mathar (2007), Refractive index of humid air in the infrared: model fits, by band:
range (um), reference wavelength (um), rows of [ref, T, TT, H, HH, p, pp, TH, Tp, Hp]."""
TABLES = {
    'K': ((1.3, 2.5), 2.25, [
        [0.000200192, 0.0588625, -3.01513, -1.03945e-08, 5.73256e-13, 2.67085e-09, 6.09186e-18, 4.97859e-05, 7.79176e-07, -2.06567e-16],
        [1.13474e-10, -3.85766e-08, 0.000406167, 1.36858e-12, 1.86367e-17, 1.35941e-15, 5.19024e-24, -6.61752e-09, 3.96499e-13, 1.06141e-21],
        [-4.24595e-15, 8.88019e-11, -5.14544e-07, -1.71039e-15, -2.2815e-20, 1.35295e-19, -4.19477e-28, 8.32034e-12, 3.95114e-17, -1.49982e-24],
        [1.00957e-17, -5.6765e-14, 3.43161e-10, 1.12908e-18, 1.50947e-23, 8.18218e-24, 4.3412e-31, -5.51793e-15, 2.33587e-21, 9.84046e-28],
        [-2.93315e-21, 1.66615e-17, -1.01189e-13, -3.29925e-22, -4.41214e-27, -2.22957e-27, -1.22445e-34, 1.61899e-18, -6.36441e-25, -2.88266e-31],
        [3.07228e-25, -1.74845e-21, 1.06749e-17, 3.44747e-26, 4.61209e-31, 2.49964e-31, 1.34816e-38, -1.69901e-22, 7.16868e-29, 2.99105e-35],
    ]),
    'L': ((2.8, 4.2), 3.3999999999999995, [
        [0.000200049, 0.0588431, -3.13579, -1.08142e-08, 5.86812e-13, 2.669e-09, 6.0886e-18, 5.17962e-05, 7.78638e-07, -2.17243e-16],
        [1.45221e-10, -8.25182e-08, 0.000694124, 2.30102e-12, 3.12198e-17, 1.68162e-15, -1.12149e-22, 4.6156e-23, 4.46396e-13, 1.04747e-21],
        [2.50951e-13, 1.37982e-10, -5.00604e-07, -1.54652e-15, -1.97792e-20, 3.53075e-18, 1.84282e-25, 7.76507e-12, 7.846e-16, -5.23689e-24],
        [-7.45834e-16, 3.5242e-14, -1.16668e-09, -3.23014e-18, -4.61945e-23, -9.63455e-21, -5.24471e-28, 1.72569e-14, -1.95151e-18, 8.17386e-27],
        [-1.61432e-18, -7.30651e-16, 2.09644e-12, 6.30616e-21, 7.88398e-26, -2.23079e-23, -1.21299e-30, -3.20582e-17, -5.42083e-21, 3.09913e-29],
        [3.5278e-21, -1.67911e-19, 5.91037e-15, 1.7388e-23, 2.4558e-28, 4.53166e-26, 2.46512e-33, -8.99435e-20, 1.0353e-23, -3.63491e-32],
    ]),
    'M': ((4.35, 5.3), 4.8, [
        [0.00020002, 0.0590035, -4.0983, -1.40463e-08, 5.43605e-13, 2.66898e-09, 6.10706e-18, 6.74488e-05, 7.78627e-07, -2.11676e-16],
        [2.75346e-10, -3.75764e-07, 0.00250037, 8.3935e-12, 1.12802e-16, 2.73629e-15, 1.1662e-22, -4.06775e-08, 5.93296e-13, 4.87921e-21],
        [3.25702e-13, 1.34585e-10, 2.75187e-07, -1.90929e-15, -2.29979e-20, 4.63466e-18, 2.44736e-25, 2.89063e-12, 1.45042e-15, -6.82545e-24],
        [-6.93603e-15, 1.24316e-12, -6.53398e-09, -1.21399e-17, -1.9145e-22, -9.16894e-20, -4.97682e-27, 8.19898e-14, 4.89815e-18, 9.42802e-26],
        [2.8561e-18, 5.0851e-14, -3.10589e-10, -8.98863e-19, -1.20352e-23, 1.36685e-22, 7.42024e-30, 4.68386e-15, 3.27941e-20, -9.46422e-28],
        [3.38758e-19, -1.89245e-16, 1.27747e-12, 3.64662e-21, 5.00955e-26, 4.13687e-24, 2.24625e-31, -1.91182e-17, 1.2802e-22, -1.53682e-30],
    ]),
    'N': ((7.5, 14.1), 10.1, [
        [0.000199885, 0.05939, -6.50355, -2.21938e-08, 3.93524e-13, 2.66809e-09, 6.10508e-18, 0.000106776, 7.78368e-07, -2.06365e-16],
        [3.44739e-10, -1.72226e-06, 0.010383, 3.47377e-11, 4.64083e-16, 3.695247e-15, 2.27694e-23, -1.68516e-07, 2.16404e-13, 3.00234e-20],
        [-2.73714e-13, 2.37654e-09, -1.39464e-05, -4.65991e-14, -6.21764e-19, 1.5907e-18, 7.86323e-26, 2.26201e-10, 5.81805e-16, -4.26519e-23],
        [3.93383e-16, -3.81812e-12, 2.20077e-08, 7.35848e-17, 9.81126e-22, -3.03451e-21, -1.74448e-28, -3.56457e-13, -1.89618e-18, 6.84306e-26],
        [-5.69488e-18, 3.0505e-15, -2.72412e-11, -8.97119e-20, -1.21384e-24, -6.61489e-23, -3.59791e-30, 4.3798e-16, -1.98869e-20, -4.6732e-30],
        [1.64556e-20, -1.57464e-17, 1.26364e-13, 3.80817e-22, 5.15111e-27, 1.78226e-25, 9.78307e-33, -1.94545e-18, 5.89381e-23, 1.26117e-31],
    ]),
    'Q': ((16.0, 28.0), 20.0, [
        [0.000199436, 0.0621723, -23.2409, -7.72707e-08, -3.26604e-13, 2.66827e-09, 6.13675e-18, 0.000375974, 7.78436e-07, -2.72614e-16],
        [2.99123e-09, -1.77074e-05, 0.108557, 3.47237e-10, 4.63606e-15, 1.20788e-15, 5.85494e-23, -1.71849e-06, 4.6184e-13, 3.04662e-19],
        [-2.14862e-11, 1.52213e-07, -0.00102439, -2.72675e-12, -3.64272e-17, 5.22646e-18, 2.86055e-25, 1.46704e-08, 3.06229e-15, -2.3959e-21],
        [1.43338e-13, -9.54584e-10, 6.34072e-06, 1.70858e-14, 2.28756e-19, 7.83027e-20, 4.25193e-27, -9.17231e-11, -6.23183e-17, 1.49285e-23],
        [1.22398e-15, 9.21476e-14, -6.75587e-10, -1.50004e-18, -2.00547e-23, 7.53235e-22, 4.13455e-29, -9.55922e-13, -1.61119e-19, 1.36086e-25],
        [-1.14628e-17, -9.96706e-12, 7.62517e-08, 1.56889e-16, 2.09502e-21, -2.28819e-25, -8.12941e-33, 8.80502e-15, 8.00756e-21, -1.30999e-27],
    ]),
}
