"""A plugin which fails while generating."""
from turms.plugins.base import Plugin, PluginConfig
from pydantic import Field


class BrokenConfig(PluginConfig):
    type: str = "vt_broken.BrokenPlugin"


class BrokenPlugin(Plugin):
    config: BrokenConfig = Field(default_factory=BrokenConfig)

    def generate_ast(self, client_schema, config, registry):
        raise RuntimeError("boom [/red] {config} %s")
