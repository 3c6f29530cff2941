"""Bases users mix into generated models."""
from pydantic import BaseModel, ConfigDict


class TypeTrait(BaseModel):
    def trait_marker(self):
        return "type"


class OtherTrait(BaseModel):
    def other_marker(self):
        return "other"


class InputTrait(BaseModel):
    def input_marker(self):
        return "input"


class QueryBase(BaseModel):
    def base_marker(self):
        return "query"


class MutationBase(BaseModel):
    def base_marker(self):
        return "mutation"


class SubscriptionBase(BaseModel):
    def base_marker(self):
        return "subscription"


class ArgumentsBase(BaseModel):
    def arguments_marker(self):
        return "arguments"


class ObjectBase(BaseModel):
    def object_marker(self):
        return "object"


class FragmentBase(BaseModel):
    def fragment_marker(self):
        return "fragment"


class InterfaceBase(BaseModel):
    def interface_marker(self):
        return "interface"


class InputBase(BaseModel):
    def inputbase_marker(self):
        return "inputbase"


class UnionBase(BaseModel):
    def unionbase_marker(self):
        return "union"


def _trait(letter):
    from pydantic import model_validator

    def validated(self):
        TRACE.append((letter, type(self)))
        return self

    return type("Trait" + letter, (BaseModel,), {
        "__module__": __name__, "__annotations__": {},
        "validated_" + letter.lower(): model_validator(mode="after")(validated),
        "trait_" + letter.lower(): lambda self: letter,
        "common_marker": lambda self: "trait " + letter,
    })


TRACE = []
TraitA, TraitB, TraitC, TraitD, TraitE = (_trait(x) for x in "ABCDE")


class Common(BaseModel):
    """An object base whose methods traits override."""

    def common_marker(self):
        return "base"


class Same(str):
    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        return handler(str)


class Configured(BaseModel):
    model_config = ConfigDict(populate_by_name=True, from_attributes=True, validate_assignment=True)
