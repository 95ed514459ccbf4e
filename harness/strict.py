"""Module with schema of its configuration"""

from hat import json

from hat.event import common

from .fakes import create


info = common.ModuleInfo(
    create=create,
    json_schema_id='verif://strict.yaml',
    json_schema_repo=json.create_schema_repository({
        '$id': 'verif://strict.yaml',
        'type': 'object',
        'required': ['level'],
        'properties': {'level': {'type': 'integer'}}}))
