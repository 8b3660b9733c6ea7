from .formulas import check_C01, check_C02, check_C16
from .model import check_C03, check_C25
from .structure import check_C04, check_C05, check_C06, check_C07
from .wiring import check_C08, check_C15, check_C23
from .effects import check_C09, check_C10, check_C11, check_C13, check_C14, check_C24
from .data import check_C20, check_C21, check_C22
from .errors import check_C19
from .finite import check_C12
from .limits import check_C17, check_C18

CHECKS = {k[6:]: v for k, v in sorted(globals().items()) if k.startswith("check_C")}
