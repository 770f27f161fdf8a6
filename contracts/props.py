"""Which functions and clauses each property rests on.

PROPS[id] = dict(
  funcs   regular expressions over the names of functions under contract,
  lemmas  names of the lemmas over the contracts,
  tests   [(package directory, test name)] of the bounded harness,
  left    what no contract decides and the bounded harness stands in for)

OWN maps a clause label to the properties it speaks about; obligations of
other labels (well-formedness, frames, safety, termination) count for every
property whose functions generate them.
"""
import re

OWN = {}


def own(props, labels):
    for l in labels.split():
        OWN.setdefault(l, set()).update(props.split())


own('C07', 'offset tiled reference referenced otherwise oversized limit tiledobj')
own('C06', 'durable stored reported latched sticky error')
own('C03', 'balanced left minimal grown')
own('C04', 'shape verified sound complete leaves inner filled')
own('C03 C04', 'full used')
own('C01 C04 C05 C11 C12 C13', 'content')
own('C01 C04 C05', 'consumed rest')
own('C01', 'empty')
own('C11 C13', 'logical over taken flushed')
own('C11', 'written remains copied held at done todo room')
own('C11 C12', 'zeros')
own('C12', 'prefix resized nochange')
own('C14', 'own copy held')
own('C23 C24', 'same')
own('C20 C23', 'reported latched')
own('C23', 'only')
own('C24', 'rest')
own('C21', 'same total others partial copy')
own('C13', 'moved ahead bytes ateof same amount partial handed whence pending')
own('C11 C12 C13', 'plain')
own('C02 C05 C11 C12 C13', 'sizes total')
own('C08', 'inorder short eof only whole count room directory symlink others')
own('C09', 'start current end reported origins negative top below position ahead')

own('C16 C19', 'same error')

HELP = [r'importer/helpers\.']
FS = [r'go-unixfs\.FSNode\)\.', r'go-unixfs\.NewFSNode$', r'go-unixfs\.FSNodeFromBytes$', r'go-unixfs\.ExtractFSNode$']
BAL = [r'importer/balanced\.']
TRI = [r'trickle\.(fillTrickleRec|Layout|verifyTDagRec|VerifyTrickleDagStructure)']
APP = [r'trickle\.(Append|append|moveData|trickleDepth|fillTrickleRec)']
DIRS = [r'io\.(Basic|HAMT|Dynamic)Directory\)', r'io\.(NewDirectory|newEmptyBasicDirectory|newBasicDirectoryFromNode|productionLinkSize)', r'go-unixfs\.EmptyDirNode']
LISTS = [r'\)\.(ForEachLink|Links|EnumLinksAsync|EnumLinks)(\$|$)']
SHARD = [r'hamt\.(NewHamtFromDag|makeShard)$', r'hamt\.Shard\)\.makeShardValue$', r'hamt\.childer\)\.(get|insert|rm)$']
Z = 'internal/zverif'

PROPS = {
    'C01': dict(funcs=HELP + FS + BAL + TRI, tests=[(Z, 'TestC01')], left=[]),
    'C02': dict(funcs=HELP + FS + BAL + TRI, tests=[(Z, 'TestC02')], left=[]),
    'C03': dict(funcs=HELP + FS + BAL, lemmas=['shape of balanced trees'], tests=[(Z, 'TestC03')], left=[]),
    'C04': dict(funcs=HELP + FS + TRI, tests=[(Z, 'TestC04')], left=['the subtrees of an appended DAG: their shape after Append is checked by the bounded harness only']),
    'C05': dict(funcs=HELP + FS + APP, tests=[(Z, 'TestC05')], left=[]),
    'C06': dict(funcs=HELP + FS + BAL + TRI + APP, tests=[(Z, 'TestC06')], left=[]),
    'C07': dict(funcs=HELP + FS + BAL + TRI, tests=[(Z, 'TestC07')], left=[]),
    'C18': dict(funcs=[r'hamt\.\(?hashBits|hamt\.hashBits', r'hamt\.(newHashBits|newConsumedHashBits|Logtwo)'], lemmas=['bit groups'], tests=[(Z, 'TestC18'), ('hamt', 'TestC18')], left=[]),
    'C08': dict(funcs=[r'dagReader\)\.(Size|Read|CtxReadFull|WriteTo)', r'io\.NewDagReader', r'go-unixfs\.ReadUnixFSNodeData'], tests=[(Z, 'TestC08')],
                left=['files whose inner nodes carry data of their own: bounded harness only']),
    'C09': dict(funcs=[r'dagReader\)\.(Seek|CtxReadFull|WriteTo)', r'io\.NewDagReader', r'go-unixfs\.ReadUnixFSNodeData'], tests=[(Z, 'TestC09')],
                left=['files whose inner nodes carry data of their own: bounded harness only']),
    'C11': dict(funcs=[r'DagModifier\)\.(WriteAt|Write|Sync|modifyDag|expandSparse|appendData|setNode|Size)$', r'mod\.(fileSize|NewDagModifier)', r'zeroReader'] + APP + HELP + FS, lemmas=['writing over a file'], tests=[(Z, 'TestC11')], left=[]),
    'C12': dict(funcs=[r'DagModifier\)\.(Truncate|dagTruncate|Sync|modifyDag|expandSparse|appendData|setNode|Size)$', r'mod\.fileSize', r'zeroReader'] + APP + HELP + FS, lemmas=['writing over a file'], tests=[(Z, 'TestC12')], left=[]),
    'C13': dict(funcs=[r'mod\.', r'zeroReader', r'DagModifier\)', r'dagReader\)', r'io\.NewDagReader', r'go-unixfs\.ReadUnixFSNodeData'] + FS, lemmas=['writing over a file'], tests=[(Z, 'TestC13')], left=[]),
    'C14': dict(funcs=[r'mod\.', r'DagModifier\)', r'zeroReader', r'helpers\.FSNodeOverDag\)', r'trickle\.(Append|append|moveData)'] + DIRS, lemmas=['entries of a directory'], tests=[(Z, 'TestC14(mod|dir)')], left=['sharded directories loaded from a node: bounded harness only (the flat ones are proved)']),
    'C21': dict(funcs=DIRS, lemmas=['entries of a directory'], tests=[(Z, 'TestC21')], left=['that the operations of a sharded directory are those of a map is assumed here: bounded harness only (C16)']),
    'C24': dict(funcs=[r'io\.ResolveUnixfsOnce', r'io\.(Basic|HAMT|Dynamic)Directory\)\.Find', r'io\.(NewDirectoryFromNode|newBasicDirectoryFromNode)'], lemmas=['entries of a directory'], tests=[(Z, 'TestC24')], left=['that a lookup in a shard is a lookup in the map it stands for is assumed here: bounded harness only']),
    'C20': dict(funcs=LISTS + [r'unixfile\.\(?\*?ufs(Directory|Iterator)', r'ufs(Directory|Iterator)\)\.'], lemmas=['entries of a directory'], tests=[(Z, 'TestC20')],
                left=['that the walk of a shard visits every entry exactly once or fails (walkChildren, parallelShardWalk) is assumed here: bounded harness only']),
    'C23': dict(funcs=[r'ufs(Directory|Iterator|File)\)\.', r'file\.(newUnixfsDir|NewUnixfsFile)', r'io\.(NewDirectoryFromNode|newBasicDirectoryFromNode|NewDagReader)', r'Directory\)\.ForEachLink$'], lemmas=['entries of a directory'], tests=[(Z, 'TestC23')],
                left=['that the walk of a shard visits every entry exactly once or fails (walkChildren, parallelShardWalk) is assumed here: bounded harness only']),
    'C15': dict(funcs=[r'go-unixfs\.[A-Z]', r'go-unixfs\.FSNode\)', r'go-unixfs\.Metadata\)'], tests=[(Z, 'TestC15')], left=[]),
    # absence of panics in the functions that open a node of any content (their preconditions say nothing of what is in it)
    'C22': dict(funcs=[r'go-unixfs\.(FSNodeFromBytes|UnwrapData|DataSize|MetadataFromBytes|ExtractFSNode|ReadUnixFSNodeData)$', r'io\.(NewDagReader|NewDirectoryFromNode|newBasicDirectoryFromNode|ResolveUnixfsOnce)$',
                       r'file\.(newUnixfsDir|NewUnixfsFile)$', r'hamt\.(NewHamtFromDag|makeShard)$', r'hamt\.Shard\)\.makeShardValue$',
                       r'dagReader\)\.(Read|CtxReadFull|WriteTo|Seek|Size)$', r'io\.Basic(Directory)\)\.(Find|Links|ForEachLink|AddChild|RemoveChild)$', r'ufs(Directory|Iterator|File)\)\.'], modules=['c_hamt'], level='exploration', kinds='safety pre term inv', tests=[(Z, 'TestC22')],
                left=['the operations of a shard and of the modifier on malformed nodes: bounded harness only']),
    # parts of the shard under contract: what they guarantee is checked, but the property as a whole is explored (bounded)
    'C16': dict(funcs=SHARD, modules=['c_hamt'], level='exploration', tests=[(Z, 'TestC16')],
                left=['swapValue, getValue and what calls them: the map as a whole is explored (bounded harness only)']),
    'C19': dict(funcs=[r'hamt\.NewHamtFromDag$', r'hamt\.makeShard$', r'hamt\.Shard\)\.makeShardValue$', r'hamt\.childer\)\.get$'], modules=['c_hamt'], level='exploration', tests=[(Z, 'TestC19')],
                left=['serialization (Node) and the round trip as a whole: bounded harness only']),
}
BOUNDED = {
    'C11': ('TestC11', 'modifier'), 'C12': ('TestC12', 'modifier'), 'C13': ('TestC13', 'modifier'), 'C14': ('TestC14(mod|dir)', 'modifier and directories'),
    'C16': ('TestC16', 'sharded directory'), 'C17': ('TestC17', 'sharded directory'), 'C19': ('TestC19', 'sharded directory'),
    'C20': ('TestC20', 'listings'), 'C21': ('TestC21', 'directories'), 'C22': ('TestC22', 'malformed nodes'),
    'C23': ('TestC23', 'file view'), 'C24': ('TestC24', 'resolution'),
}
for _k, (_t, _w) in BOUNDED.items():
    PROPS.setdefault(_k, dict(funcs=[], tests=[(Z, _t)], left=['all of it: ' + _w]))

HEAVY = [(r'dagReader\).CtxReadFull', 30), (r'dagReader\).(Seek|WriteTo)', 25), (r'NewDagReader', 6), (r'DagModifier\).(modifyDag|Sync|dagTruncate|Read|CtxReadFull)', 20), (r'fillNodeRec', 10), (r'balanced\.Layout', 5), (r'AddChild', 2), (r'fillTrickleRec', 30), (r'FillNodeLayer', 4), (r'trickle\.Append', 40), (r'trickle\.append', 40)]
MODULES = ['c_unixfs', 'c_helpers', 'c_trickle', 'c_append', 'c_bits', 'c_reader', 'c_mod', 'c_dir', 'c_list', 'c_view']
_LAB = re.compile(r'^(?:postcondition (\S+) \(path|(?:.*: )?invariant (\S+) (?:on entry|preserved)|precondition (\S+) of )')


def label(name):
    m = _LAB.match(name)
    return next((g for g in m.groups() if g), None) if m else None


def counts(prop, obl_name, kind=None):
    ks = PROPS[prop].get('kinds')
    if ks and kind and kind != 'lemma' and kind not in ks.split():
        return False
    l = label(obl_name)
    return l is None or l not in OWN or prop in OWN[l]
