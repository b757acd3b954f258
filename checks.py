"""What each property's check builds and runs. Read by run.py."""
DEF = {"name": "default"}
PORT = {"name": "portable", "flags": ["-DTHEORETICA_DISABLE_X86"]}

CHECKS = {
    "C01": {
        "sources": ["c01_real.cpp"],
        "configs": [DEF, PORT] },
    "C02": {"sources": ["c02_integer.cpp"], "configs": [DEF] },
    "C03": {"sources": ["c03_special.cpp"], "configs": [DEF, PORT] },
    "C04": {"sources": ["c04_vec.cpp"], "configs": [DEF] },
    "C05": {"sources": ["c05_mat.cpp"], "configs": [DEF, {"name": "rowfirst", "flags": ["-DTHEORETICA_ROW_FIRST"]}] },
    "C06": {"sources": ["c06_solve.cpp"], "configs": [DEF] },
    "C07": {"sources": ["c07_eigen.cpp"], "configs": [DEF] },

    "C08": {"sources": ["c08_transform.cpp"], "configs": [DEF]},
    "C09": {"sources": ["c09_distance.cpp"], "configs": [DEF]},
    "C10": {"sources": ["c10_complex.cpp"], "configs": [DEF]},
    "C11": {"sources": ["c11_autodiff.cpp"], "configs": [DEF]},
    "C12": {"sources": ["c12_second_order.cpp"], "configs": [DEF]},
    "C13": {"sources": ["c13_polynomial.cpp"], "configs": [DEF]},
    "C14": {"sources": ["c14_orthogonal.cpp"], "configs": [DEF]},
    "C15": {"sources": ["c15_calculus.cpp"], "configs": [DEF]},
    "C16": {"sources": ["c16_ode.cpp"], "configs": [DEF]},
    "C17": {"sources": ["c17_roots.cpp"], "configs": [DEF]},
    "C18": {"sources": ["c18_interpolation.cpp"], "configs": [DEF]},
    "C19": {"sources": ["c19_extrema.cpp"], "configs": [DEF]},
    "C20": {"sources": ["c20_fft.cpp"], "configs": [DEF, PORT]},
    "C21": {"sources": ["c21_statistics.cpp"], "configs": [DEF]},
    "C22": {"sources": ["c22_distributions.cpp"], "configs": [DEF]},
    "C23": {"sources": ["c23_regression.cpp"], "configs": [DEF]},
    "C24": {"sources": ["c24_histogram.cpp"], "configs": [DEF]},
    "C25": {"sources": ["c25_prng.cpp"], "configs": [DEF]},
    "C26": {"sources": ["c26_sampling.cpp"], "configs": [DEF]},
    "C27": {"sources": ["c27_purity.cpp"], "configs": [DEF, {"name": "races", "san": False, "probe": True,
            "flags": ["-fno-openmp", "-DNO_OMP_LAWS", "-fsanitize=thread", "-pthread"],
            "env": {"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0"}}]},
    "C28": {"sources": ["c28_errors.cpp"], "configs": [DEF,
            {"name": "throw", "flags": ["-DTHEORETICA_THROW_EXCEPTIONS"]}, {"name": "only-exceptions", "flags": ["-DTHEORETICA_ONLY_EXCEPTIONS"]}]},
    "C29": {"sources": ["c29_text.cpp"], "configs": [DEF]},
    "C30": {"driver": "headers"},
    "C31": {"sources": ["c31_precision.cpp"], "configs": [{"name": "single", "flags": ["-DTHEORETICA_FLOAT_PREC"]}, {"name": "extended", "flags": ["-DTHEORETICA_LONG_DOUBLE_PREC"]},
            {"name": "double", "flags": ["-DTHEORETICA_BRANCHLESS"]}, {"name": "single-portable", "flags": ["-DTHEORETICA_FLOAT_PREC", "-DTHEORETICA_DISABLE_X86"]}]},
}
