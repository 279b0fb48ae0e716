"""Facts and effects the rules are written in."""
import re
from query import *  # noqa
import interp

FDATA = proj(mk('as', proj(SELF, 'data'), 'V0110'), 0)


def st(crate, *path):
    """term of a state field"""
    return proj(SELF if crate == 'exchange' else FDATA, *path)


def owner(crate):
    return mk('T', eq(PRED, st(crate, 'owner_id')))


def guardian(crate='exchange'):
    return mk('T', mk('call', 'UnorderedSet::contains', (st(crate, 'guardians'), PRED)))


PRIV = mk('T', eq(PRED, CURRENT))
YOCTO = mk('T', eq(DEPOSIT, C(1)))
NOPAY = mk('T', eq(DEPOSIT, C(0)))


def running(crate):
    return mk('V', st(crate, 'state'), 'Running')


MUT = {'insert', 'remove', 'push', 'replace', 'set', 'swap_remove', 'clear', 'extend', 'pop', 'remove_raw', 'insert_raw', 'take', 'drain',
       'replace_raw', 'push_raw', 'evict', 'get_or_insert'}


def collection_write(e):
    """a mutator of a persistent near_sdk collection"""
    return e.kind == 'call' and 'near_sdk::collections::' in (e.func or '') and e.name.rsplit('::', 1)[-1] in MUT


STORAGE = {'env::storage_write', 'env::storage_remove'}
HOSTWRITE = re.compile(r'BlockchainInterface::(storage_write|storage_remove|promise_|log)')


def storage_write(e):
    return e.kind == 'call' and (e.name in STORAGE or 'BlockchainInterface::storage_write' in e.name or 'BlockchainInterface::storage_remove' in e.name)


def state_write(e):
    return e.kind == 'call' and e.name == 'env::state_write'


def promise(e):
    """an outgoing promise being created or extended"""
    if e.kind != 'call':
        return False
    if e.item is not None and e.item.body is not None and not e.name.startswith('ext_'):
        return False
    return e.name.startswith('Promise::') and e.name not in ('Promise::clone',) or e.name.startswith('env::promise_') and e.name not in (
        'env::promise_result', 'env::promise_results_count', 'env::promise_return') or bool(re.match(r'^ext_\w+::', e.name)) or \
        'BlockchainInterface::promise_' in e.name and 'promise_result' not in e.name


def self_write(e):
    """a field of the contract state being overwritten"""
    return e.kind == 'write' and e.locs[0][0] == ('R', 'self') and e.locs[0][1] != ()


def effect(e):
    return collection_write(e) or storage_write(e) or promise(e) or self_write(e)


def field_of(crate, e):
    """name of the contract field a self write / collection write lands in"""
    l = e.locs[0] if e.locs else None
    if not l or l[0] != ('R', 'self'):
        return None
    p = l[1]
    if crate == 'farming':
        p = tuple(x for x in p[1:] if x not in ('V0110', 0, '0'))
    return p[0] if p else None
