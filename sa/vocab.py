"""Names of the derivative routines with a forward/adjoint switch, confirmed by reading; routines with
other names are implementation helpers and are followed into their bodies."""

ADJOINT = {
    "PetaCDeriv",
    "PetaEtaDeriv",
    "PetaTauiDeriv",
    "_aInitialDeriv",
    "_bDeriv",
    "_bDeriv_m",
    "_bDeriv_mu",
    "_bDeriv_src",
    "_bDeriv_u",
    "_bSecondaryDeriv",
    "_b_pxDeriv",
    "_b_pxDeriv_m",
    "_b_pxDeriv_u",
    "_b_pyDeriv",
    "_b_pyDeriv_m",
    "_b_pyDeriv_u",
    "_dbdtDeriv",
    "_dbdtDeriv_m",
    "_dbdtDeriv_u",
    "_dhdtDeriv",
    "_dhdtDeriv_m",
    "_dhdtDeriv_u",
    "_eDeriv",
    "_eDeriv_m",
    "_eDeriv_u",
    "_e_pxDeriv",
    "_e_pxDeriv_m",
    "_e_pxDeriv_u",
    "_e_pyDeriv",
    "_e_pyDeriv_m",
    "_e_pyDeriv_u",
    "_eval_admittance_deriv",
    "_eval_apparent_conductivity_deriv",
    "_eval_impedance_deriv",
    "_eval_tipper_deriv",
    "_hDeriv",
    "_hDeriv_m",
    "_hDeriv_mui",
    "_hDeriv_u",
    "_inner_mat_mul_op",
    "_jDeriv",
    "_jDeriv_m",
    "_jDeriv_mui",
    "_jDeriv_u",
    "_phiDeriv",
    "_phiDeriv_m",
    "_phiDeriv_u",
    "_phiInitialDeriv",
    "_primaryFieldsDeriv",
    "bInitialDeriv",
    "bPrimaryDeriv",
    "deriv",
    "eInitialDeriv",
    "ePrimaryDeriv",
    "evalDeriv",
    "field_deriv_m",
    "getADeriv",
    "getADeriv_mu",
    "getADeriv_mui",
    "getADeriv_rho",
    "getADeriv_sigma",
    "getAdcDeriv",
    "getAdiagDeriv",
    "getAsubdiagDeriv",
    "getInitialFieldsDeriv",
    "getRHSDeriv",
    "hInitialDeriv",
    "hPrimaryDeriv",
    "jInitialDeriv",
    "jPrimaryDeriv",
    "s_eDeriv",
    "s_eDeriv_m",
    "s_mDeriv",
}
