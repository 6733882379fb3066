"""Contracts on what the generator does to the file system (G01), for the slice tools/fsslice takes of the sources."""
import os, re
import vk

ROOT = os.path.join(vk.REPO, "cli/src")
# what writes files outside the listed sources is found by these words; such a source joins the slice
WRITES = r"\b(remove_file|remove_dir|remove_dir_all|OpenOptions|create_dir|create_dir_all|rename|set_len|hard_link)\b|\bfs\s*::\s*(write|copy)\b|\bFile\s*::\s*(create|options|create_new)\b|\bCommand\s*::\s*new\b"


def files():
    fs = ['helpers/fs.rs', 'protocol/render/rust/mod.rs', 'protocol/render/typescript/mod.rs', 'arguments/args_option_files.rs']
    more = []
    for d, _, n in os.walk(ROOT):
        for x in n:
            p = os.path.relpath(os.path.join(d, x), ROOT)
            if not x.endswith('.rs') or '/static/' in p or p in fs:
                continue
            if p.startswith('workflow/render/'):
                fs.append(p)
            elif re.search(WRITES, open(os.path.join(d, x), errors="replace").read()):
                more.append(p)
    return sorted(fs), sorted(more)


DEF={'clauses':'ensures vx_same_files(old(vx_w)@, final(vx_w)@),','inv':'vx_same_files(vx_w0, vx_w@)'}
def con(*e, inv=()):
    return {'clauses':'ensures '+''.join('\n    %s,'%x for x in e),'inv':', '.join(inv)}
O,N,W='old(vx_w)@','final(vx_w)@','final(vx_w)@.writes >= old(vx_w)@.writes'
WI='vx_w@.writes >= vx_w0.writes'
OKW='vx_r.is_ok() ==> final(vx_w)@.writes > old(vx_w)@.writes'
SF='vx_same_files(old(vx_w)@, final(vx_w)@)'
C={}
C['helpers_fs__write']=con('vx_only(old(vx_w)@, final(vx_w)@, filename@)','vx_r.is_ok() ==> final(vx_w)@.files.contains_key(filename@) && final(vx_w)@.files[filename@] == vx_utf8(content@)','!overwrite && old(vx_w)@.files.contains_key(filename@) ==> vx_r.is_err() && vx_same(old(vx_w)@, final(vx_w)@)',W,'vx_r.is_ok() ==> final(vx_w)@.writes == old(vx_w)@.writes + 1')
for m in ['protocol_render_rust_mod__RustRender','protocol_render_typescript_mod__TypescriptRender','workflow_render_puml_mod__PumlRender']:
    C[m+'__render']=con('vx_only(old(vx_w)@, final(vx_w)@, dest@)',W,OKW)
A='arguments_args_option_files__ArgsOptionFiles__'
for x in ['uml','rs','ts']:
    C[A+'set_dest_'+x]=con(SF,'!overwrite && old(vx_w)@.files.contains_key(path@) ==> final(vx_self).dest_%s == old(vx_self).dest_%s'%(x,x))
C[A+'get_overwrite_flag']=con(SF,'vx_r == vx_overwrite()')
def act(a,b): return ['forall|p: P| #[trigger] %s.files.contains_key(p) && !vx_own_all(vx_self.dest_consumer, vx_self.dest_producer, p) && !vx_named_by(vx_self.dest_uml, p) && !(vx_overwrite() && (vx_named_by(vx_self.dest_rs, p) || vx_named_by(vx_self.dest_ts, p))) ==> %s.files.contains_key(p) && %s.files[p] == %s.files[p]'%(a,b,b,a)]
C[A+'action']=con(*act(O,N),inv=act('vx_w0','vx_w@'))
C['workflow_render_render__render']=con('vx_kept_all(old(vx_w)@, final(vx_w)@, vx_in_consumer_dest, vx_in_producer_dest)',W,inv=['vx_kept_all(vx_w0, vx_w@, vx_g_consumer_dest, vx_g_producer_dest)',WI])
STUB = {'c_rs':['render_broadcast'],'p_rs':['render_request_response','render_event_impl','render_beacon_impl'],'p_ts':['render_request_response','render_event_impl','render_beacon_impl'],'c_ts':[]}
for f in files()[0]:
    m=re.match(r'workflow/render/(consumer|producer)/(rust|typescript)/(\w+)\.rs',f)
    if not m: continue
    k=m[1][0]+'_'+{'rust':'rs','typescript':'ts'}[m[2]]
    M=f[:-3].replace('/','_')+'__'
    own='vx_own_%s(base@, %%s@)'%k
    kept='vx_kept_%s(old(vx_w)@, final(vx_w)@, base@)'%k
    inv=['vx_kept_%s(vx_w0, vx_w@, base@)'%k, WI]
    if m[3]=='render':
        C[M+('RustRender' if m[2]=='rust' else 'TypescriptRender')+'__render']=con(kept,W,OKW,inv=inv)
        continue
    M+='Render__'
    if m[3] in STUB[k]:
        C[M+'render']=con('vx_same(old(vx_w)@, final(vx_w)@)',W,inv=['vx_same(vx_w0, vx_w@)',WI])
        C[M+'get_dest_file']=con(SF)
        continue
    C[M+'render']=con(kept,W,OKW,inv=inv)
    if m[3]=='render_static':
        C[M+'create_if']=con('vx_same(old(vx_w)@, final(vx_w)@)',W)
        C[M+'get_dest_file']=con(SF,'vx_r.is_ok() ==> vx_r->Ok_0@ == base@ + vx_parts(path@) + vx_parts(file_name@)')
    elif k=='c_ts' and m[3] in ('render_options','render_consumer'):
        C[M+'get_dest_file']=con(SF,own%'vx_r')
    else:
        C[M+'get_dest_file']=con(SF,'vx_r.is_ok() ==> '+own%'vx_r->Ok_0')
    C[M+'get_target_file']=con(SF,'vx_r.is_ok() ==> vx_named(vx_r->Ok_0@, %s@)'%('"Cargo.toml"' if m[2]=='rust' else '"package.json"'),inv=['vx_same_files(vx_w0, vx_w@)'])

for x in C:
    m = re.match(r'workflow_render_(consumer|producer)_(rust|typescript)_(\w+?)__', x)
    if m and m[3] != 'render':
        C[x]['start'] = 'reveal(vx_own_%s_%s);' % (m[1][0], {'rust': 'rs', 'typescript': 'ts'}[m[2]])
C['workflow_render_render__render']['start'] = 'reveal(vx_own_all);'
for x in ['set_src','set_workflow','set_dest_consumer','set_dest_producer','new']:
    C[A+x]=DEF
C['workflow_render_render__mkdir']=DEF


def loss_ok(fn, losses):
    """names the slice does not follow: the texts a file name is made of, and what the user said on the command line"""
    n = len(losses)
    if fn.endswith("__get_dest_file"):
        return n <= 1 and all(l.startswith("join:") for l in losses)
    if fn == A + "new":
        return n <= 7 and all(l.startswith("join:") for l in losses)
    return n == 0


def conf(out, report, probes):
    a, b = files()
    return {'root': ROOT, 'files': a + b, 'stubs': [A + 'get_overwrite_flag'], 'contracts': C, 'default': DEF, 'prelude': os.path.join(vk.ROOT, 'spec/fs_prelude.rs'), 'out': out, 'report': report, 'probes': probes}


ROOTS = ['helpers_fs__write', 'workflow_render_render__render', A + 'action', A + 'set_dest_rs', A + 'set_dest_ts']
