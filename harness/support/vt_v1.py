"""Stand-in executor for call functions generated for pydantic v1."""
import json

CALLS = []
RESULT = None


def call(operation, variables):
    CALLS.append((operation, json.loads(operation.Arguments(**variables).json(by_alias=True, exclude_unset=True).replace("+00:00", "Z"))))
    return RESULT
