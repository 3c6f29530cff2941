"""Plain bases for generated strawberry types."""


class TypeBase:
    def type_marker(self):
        return "type"


class InputBase:
    def input_marker(self):
        return "input"
