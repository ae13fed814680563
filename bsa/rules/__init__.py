"""property id -> rule module"""
REGISTRY = {
    "R01": "r01_rng",
    "R02": "r02_order",
    "U01": "u01_priors",
    "M01": "m01_inputs",
    "C01": "c01_detector",
    "C02": "c02_memo",
    "D01": "d01_density",
    "V01": "v01_conversion", "P01": "p01_joint",
    "L01": "l01_likelihood",
    "L02": "l02_gwlike", "L03": "l03_reconstruct", "F01": "f01_response", "F02": "f02_strain", "Q01": "q01_results", "T01": "t01_calibration", "S01": "s01_files", "K01": "k01_checkpoints", "N01": "n01_samplers",
    "N02": "n02_run", "I01": "i01_shared", "H01": "h01_walk", "W01": "w01_waveforms",
}
