"""User supplied marker and sentinel classes."""


class MyDefault:
    def __init__(self, value):
        self.value = value


class MyDeprecated:
    def __init__(self, reason=None):
        self.reason = reason


class MyUnset:
    pass


MISSING = MyUnset()


class Same(str):
    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        return handler(str)
