"""Contracts of package unixfs (unixfs.go)."""
from spec import *

F = '(*%s.FSNode).' % U
M64 = 2 ** 64

Contract(U + '.NewFSNode', 'typ', 'n',
         ensures=[('type', 'fs_type(n) == typ'), ('typeset', 'fsok(n)'), ('size', 'fs_size(n) == 0 and fs_hassize(n)'), ('nodata', 'fs_data(n) == EMPTY and not fs_has(n, "Data")'),
                  ('nochildren', 'nbs(n) == 0 and fs_bslice(n).base == 0'), ('opts', 'not fs_has(n, "HashType") and not fs_has(n, "Fanout")'),
                  ('fresh', 'fresh(n)')])
Contract(F + 'HashType', 'n', 'r', requires=['fsok(n)'], ensures=[('value', 'r == fs_opt(n, "HashType")')])
Contract(F + 'Fanout', 'n', 'r', requires=['fsok(n)'], ensures=[('value', 'r == fs_opt(n, "Fanout")')])
Contract(F + 'UpdateFilesize', 'n diff', '', requires=['n != None'],
         modifies=['n.format.Filesize'],
         ensures=[('size', 'fs_size(n) == (old(fs_size(n)) + diff) % M64'), ('set', 'fs_hassize(n)')])
Contract(F + 'AddBlockSize', 'n s', '', requires=['fsok(n)', 'nbs(n) < 2**47'],
         modifies=['n.format.Filesize', 'n.format.Blocksizes', blocksize_elems('n')],
         ensures=[('size', 'fs_size(n) == (old(fs_size(n)) + s) % M64'), ('set', 'fs_hassize(n)'), ('count', 'nbs(n) == old(nbs(n)) + 1'),
                  ('elems', 'bsa(n) == store(old(bsa(n)), old(nbs(n)), s)'), ('off', 'fs_bslice(n).off == 0'),
                  ('base', 'fs_bslice(n).base == old(fs_bslice(n).base) or fs_bslice(n).base > old(E.cur.alloc)')])
Contract(F + 'RemoveBlockSize', 'n i', '', requires=['fsok(n)', '0 <= i and i < nbs(n)'],
         modifies=['n.format.Filesize', 'n.format.Blocksizes', blocksize_elems('n')],
         ensures=[('size', 'fs_size(n) == (old(fs_size(n)) - old(sel(bsa(n), i))) % M64'), ('count', 'nbs(n) == old(nbs(n)) - 1'),
                  ('sum', 'sumr(bsa(n), 0, nbs(n)) == old(sumr(bsa(n), 0, nbs(n)) - sel(bsa(n), i))'),
                  ('before', 'implies(0 <= K and K < i, sel(bsa(n), K) == old(sel(bsa(n), K)))'),
                  ('after', 'implies(i <= K and K < nbs(n), sel(bsa(n), K) == old(sel(bsa(n), K + 1)))'),
                  ('lastremoved', 'implies(i == old(nbs(n)) - 1, bsa(n) == old(bsa(n)))'),
                  ('off', 'fs_bslice(n).off == 0'), ('base', 'fs_bslice(n).base == old(fs_bslice(n).base)')])
Contract(F + 'BlockSize', 'n i', 'r', requires=['fsok(n)', '0 <= i and i < nbs(n)'], ensures=[('value', 'r == sel(bsa(n), i)')])
Contract(F + 'RemoveAllBlockSizes', 'n', '', requires=['fsok(n)'],
         modifies=['n.format.Filesize', 'n.format.Blocksizes'],
         ensures=[('size', 'fs_size(n) == seqlen(fs_data(n)) and fs_hassize(n)'), ('count', 'nbs(n) == 0'), ('off', 'fs_bslice(n).off == 0'), ('base', 'fs_bslice(n).base == 0 or fs_bslice(n).base > old(E.cur.alloc)')])
Contract(F + 'FileSize', 'n', 'r', requires=['fsok(n)'],
         ensures=[('file', 'implies(fs_type(n) == 2 or fs_type(n) == 0, r == fs_size(n))'), ('symlink', 'implies(fs_type(n) == 4, r == seqlen(fs_data(n)))'),
                  ('other', 'implies(fs_type(n) != 2 and fs_type(n) != 0 and fs_type(n) != 4, r == 0)')])
Contract(F + 'NumChildren', 'n', 'r', requires=['fsok(n)'], ensures=[('count', 'r == nbs(n)')])
Contract(F + 'Data', 'n', 'r', requires=['fsok(n)'], ensures=[('bytes', 'bytes_(r) == fs_data(n)'), ('nil', 'nonnil(r) == fs_has(n, "Data")'), ('same', 'samebytes(r, fs_dslice(n))')])
Contract(F + 'SetData', 'n d', '', requires=['fsok(n)'],
         modifies=['n.format.Filesize', 'n.format.Data'],
         ensures=[('size', 'fs_size(n) == (old(fs_size(n)) + seqlen(d) - seqlen(old(fs_data(n)))) % M64'), ('set', 'fs_hassize(n)'), ('data', 'fs_data(n) == old(bytes_(d))')])
Contract(F + 'Type', 'n', 'r', requires=['fsok(n)'], ensures=[('type', 'r == fs_type(n)')])
Contract(F + 'IsDir', 'n', 'r', requires=['fsok(n)'], ensures=[('dir', 'r == (fs_type(n) == 1 or fs_type(n) == 5)')])
Contract(F + 'GetBytes', 'n', 'b err', requires=['fsok(n)'],
         ensures=[('noerror', 'err == None'), ('encodes', 'encodes(bytes_(b), n)')])
Contract(U + '.FSNodeFromBytes', 'b', 'n err',
         ensures=[('decodes', 'implies(err == None, fresh(n) and fsok(n) and encodes_opt(bytes_(b), n))'), ('base', 'implies(err == None, fs_bslice(n).base == 0 or fs_bslice(n).base > old(E.cur.alloc))'), ('bytes', 'implies(err == None, fs_dslice(n).off == 0 and (fs_dslice(n).base == 0 or fs_dslice(n).base > old(E.cur.alloc)))'), ('errnil', 'implies(err != None, n == None)'),
                  ('accepts', '(err == None) == pbok(bytes_(b))'), ('error', 'not notexist(err)')])

# ---- convenience encoders: each yields an encoding of exactly the named value
Contract(U + '.FilePBData', 'data totalsize', 'b',
         ensures=[('type', 'd_type(bytes_(b)) == 2 and pbok(bytes_(b))'), ('data', 'd_data(bytes_(b)) == old(bytes_(data))'), ('size', 'd_hasfs(bytes_(b)) and d_fs(bytes_(b)) == totalsize'),
                  ('nochildren', 'd_nbs(bytes_(b)) == 0 and not d_hasht(bytes_(b)) and not d_hasfo(bytes_(b))')])
Contract(U + '.FolderPBData', '', 'b',
         ensures=[('type', 'd_type(bytes_(b)) == 1 and pbok(bytes_(b))'), ('empty', 'not d_hasdata(bytes_(b)) and not d_hasfs(bytes_(b)) and d_nbs(bytes_(b)) == 0 and not d_hasht(bytes_(b)) and not d_hasfo(bytes_(b))')])
Contract(U + '.WrapData', 'd', 'b',
         ensures=[('type', 'd_type(bytes_(b)) == 0 and pbok(bytes_(b))'), ('data', 'd_data(bytes_(b)) == old(bytes_(d))'), ('size', 'd_hasfs(bytes_(b)) and d_fs(bytes_(b)) == seqlen(d)'),
                  ('nochildren', 'd_nbs(bytes_(b)) == 0 and not d_hasht(bytes_(b)) and not d_hasfo(bytes_(b))')])
Contract(U + '.SymlinkData', 'path', 'b err',
         ensures=[('noerror', 'err == None'), ('type', 'd_type(bytes_(b)) == 4 and pbok(bytes_(b))'), ('target', 'd_data(bytes_(b)) == path'),
                  ('nochildren', 'd_nbs(bytes_(b)) == 0 and not d_hasfs(bytes_(b)) and not d_hasht(bytes_(b)) and not d_hasfo(bytes_(b))')])
Contract(U + '.HAMTShardData', 'd fanout hashType', 'b err',
         ensures=[('noerror', 'err == None'), ('type', 'd_type(bytes_(b)) == 5 and pbok(bytes_(b))'), ('data', 'd_data(bytes_(b)) == old(bytes_(d))'),
                  ('fanout', 'd_hasfo(bytes_(b)) and d_fo(bytes_(b)) == fanout'), ('hash', 'd_hasht(bytes_(b)) and d_ht(bytes_(b)) == hashType'),
                  ('nochildren', 'd_nbs(bytes_(b)) == 0 and not d_hasfs(bytes_(b))')])
Contract(U + '.UnwrapData', 'd', 'b err',
         ensures=[('data', 'implies(err == None, bytes_(b) == d_data(bytes_(d)))'), ('accepts', '(err == None) == pbok(bytes_(d))')])
Contract(U + '.FromBytes', 'd', 'm err',
         ensures=[('decodes', 'implies(err == None, m != None and encodes_opt(bytes_(d), m))'), ('accepts', '(err == None) == pbok(bytes_(d))')])
Contract(U + '.DataSize', 'd', 'n err',
         ensures=[('accepts', 'implies(err == None, pbok(bytes_(d)))'),
                  ('file', 'implies(pbok(bytes_(d)) and (d_type(bytes_(d)) == 2 or d_type(bytes_(d)) == 0), err == None and n == d_fs(bytes_(d)))'),
                  ('symlink', 'implies(pbok(bytes_(d)) and d_type(bytes_(d)) == 4, err == None and n == seqlen(d_data(bytes_(d))))'),
                  ('dir', 'implies(pbok(bytes_(d)) and d_type(bytes_(d)) != 2 and d_type(bytes_(d)) != 0 and d_type(bytes_(d)) != 4, err != None)')])
Contract('(*%s.Metadata).Bytes' % U, 'm', 'b err', requires=['m != None'],
         ensures=[('noerror', 'err == None'), ('mime', 'pbmok(bytes_(b)) and d_hasmime(bytes_(b)) and d_mime(bytes_(b)) == m.MimeType')])
Contract(U + '.BytesForMetadata', 'm', 'b err', requires=['m != None'],
         ensures=[('noerror', 'err == None'), ('type', 'pbok(bytes_(b)) and d_type(bytes_(b)) == 3'), ('size', 'd_hasfs(bytes_(b)) and d_fs(bytes_(b)) == m.Size'),
                  ('mime', 'pbmok(d_data(bytes_(b))) and d_hasmime(d_data(bytes_(b))) and d_mime(d_data(bytes_(b))) == m.MimeType')])
Contract(U + '.MetadataFromBytes', 'b', 'm err',
         ensures=[('accepts', '(err == None) == (pbok(bytes_(b)) and d_type(bytes_(b)) == 3 and pbmok(d_data(bytes_(b))))'),
                  ('mime', 'implies(err == None, m.MimeType == ITE(d_hasmime(d_data(bytes_(b))), d_mime(d_data(bytes_(b))), EMPTY))'),
                  ('size', 'implies(err == None, m.Size == d_fs(bytes_(b)))')])
Contract(U + '.EmptyDirNode', '', 'n', ensures=[('dir', 'd_type(n.nd) == 1 and pbok(n.nd) and n.ln == 0 and fresh(n)'), ('plain', 'isproto(n) and not n.stale')])
Contract(U + '.EmptyFileNode', '', 'n', ensures=[('file', 'd_type(n.nd) == 2 and pbok(n.nd) and n.ln == 0 and d_data(n.nd) == EMPTY and d_fs(n.nd) == 0 and fresh(n)')])
Contract(U + '.ExtractFSNode', 'node', 'n err',
         ensures=[('decodes', 'implies(err == None, fresh(n) and fsok(n) and encodes_opt(node.nd, n) and isproto(node))'),
                  ('accepts', 'implies(isproto(node) and pbok(node.nd), err == None)')])
Contract(U + '.ReadUnixFSNodeData', 'node', 'b err',
         ensures=[('raw', 'implies(israw(node), err == None and bytes_(b) == node.nd)'),
                  ('proto', 'implies(isproto(node) and pbok(node.nd) and (d_type(node.nd) == 0 or d_type(node.nd) == 2), err == None and bytes_(b) == d_data(node.nd))'),
                  ('refused', 'implies(isproto(node) and not (pbok(node.nd) and (d_type(node.nd) == 0 or d_type(node.nd) == 2)), err != None)'),
                  ('other', 'implies(not isproto(node) and not israw(node), err != None)')])
