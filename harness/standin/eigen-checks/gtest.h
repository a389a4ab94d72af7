// Stand-in: eigen_checks is not installed; only the macro TEST_JACOBIAN_FINITE_DIFFERENCE needs it.
