"""A styler of the user's own."""
from pydantic_settings import SettingsConfigDict
from turms.stylers.base import BaseStyler, StylerConfig


class ObjectStylerConfig(StylerConfig):
    model_config = SettingsConfigDict(env_prefix="VT_STYLER_")
    type: str = "vt_stylers.ObjectStyler"


class ObjectStyler(BaseStyler):
    config: ObjectStylerConfig

    def style_object_name(self, typename):
        return "Gql" + typename
