"""Stand-in for lsst.pex.exceptions (the part callers can see)."""
import builtins

__all__ = ["Exception", "LogicError", "DomainError", "InvalidParameterError",
           "LengthError", "OutOfRangeError", "RuntimeError", "RangeError",
           "OverflowError", "UnderflowError", "NotFoundError", "IoError", "TypeError"]


class Exception(builtins.Exception):
    pass


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class RangeError(RuntimeError):
    pass


class OverflowError(RuntimeError, builtins.OverflowError):
    pass


class UnderflowError(RuntimeError):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass


class IoError(RuntimeError, builtins.OSError):
    pass


class TypeError(LogicError, builtins.TypeError):
    pass
