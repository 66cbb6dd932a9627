from . import vts_poly, vts_checker, grammar, vts_sym, vts_store, vts_decide, vts_signs, vts_matrix
from . import qe
from . import qe_api
from . import grf
from . import grf_select, grf_points, grf_smt
from . import side
