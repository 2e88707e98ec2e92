"""Thin access to the public API of the code under test."""
import copy
import io
import json

from . import env
env.setup()

from librksv import depparser, verify, key_store, verification_state  # noqa
from . import world, simio, model  # noqa

BACKENDS = {
    'unique': 'USED_RECEIPT_IDS_UNIQUE',
    'natural': 'USED_RECEIPT_IDS_SORTED_NATURAL',
}


def backend(name):
    return verification_state.USED_RECEIPT_IDS_BACKENDS[BACKENDS[name]]


def keystore(names):
    return key_store.KeyStore.readStoreFromJson(world.store_json(names))


def state_from(j):
    return verification_state.ClusterState.readStateFromJson(
        json.loads(json.dumps(j)))


def norm_state(state):
    """State as JSON with unordered sets made comparable."""
    j = json.loads(json.dumps(state.writeStateToJson()))
    u = j['usedReceiptIds']
    if isinstance(u.get('backendData'), list):
        n = len(u['backendData'])
        u['backendData'] = sorted(u['backendData'])
        u['n'] = n
    return j


def new_state(backend_name='unique'):
    return verification_state.ClusterState(backend(backend_name))


def decode(b):
    return b.decode('utf-8') if isinstance(b, bytes) else b


def parser_for(kind, text, plan, ctx, nparts=1, on_read=None):
    """A parser over the rendered journal, fed by a simulated stream."""
    if kind == 'dict':
        return depparser.DictDEPParser(json.loads(text.lstrip('\ufeff')),
            nparts)
    fd = simio.open_stream(text.encode('utf-8'), plan, ctx, on_read)
    if kind == 'full':
        return depparser.FullFileDEPParser(fd, nparts)
    if kind == 'certless':
        return depparser.IncrementalDEPParser.fromFd(fd, False)
    return depparser.IncrementalDEPParser.fromFd(fd, True)
