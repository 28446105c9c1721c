#!/usr/bin/env python3
# prep.py OUTDIR REPO MODULE(streams|msk): copies franz-go out of the module cache, adds a hook through which
# a stand-in can replace the network side of a client, and writes OUTDIR/MODULE.mod/.sum for -modfile.
import os,re,shutil,sys
out,repo,mod=sys.argv[1:4]
here=os.path.dirname(os.path.abspath(__file__))
MC=os.environ.get('GOMODCACHE') or '/root/go/pkg/mod'
gm=open(f'{repo}/{mod}/go.mod').read()
def ver(m):
    r=re.search(r'^\s*(?:require\s+)?'+re.escape(m)+r'\s+(v\S+)',gm,re.M)
    return r.group(1) if r else None
def copy(src,dst,skip=()):
    shutil.copytree(src,dst,ignore=lambda d,ns:[n for n in ns if n.endswith('_test.go') or n in skip])
    for d,_,fs in os.walk(dst):
        os.chmod(d,0o755)
        for f in fs: os.chmod(os.path.join(d,f),0o644)
def sub(path,pat,rep,count=1,need=True):
    s=open(path).read()
    s2,n=re.subn(pat,rep,s,count=count,flags=re.S)
    if need and n==0: raise SystemExit(f'patch does not apply: {path}: {pat}')
    open(path,'w').write(s2)
tmp=out+f'/.tmp-{mod}-{os.getpid()}'
os.makedirs(tmp)
fv=ver('github.com/twmb/franz-go')
copy(f'{MC}/github.com/twmb/franz-go@{fv}',tmp+'/franz-go',('examples','docs','ci','plugin','generate','kadm','kmsg','kfake','sr'))
K=tmp+'/franz-go/pkg/kgo/'
shutil.copy(here+'/kgo_hook.go.txt',K+'zz_verif_hook.go')
sub(K+'client.go',r'type Client struct \{\n\tcfg cfg\n','type Client struct {\n\tcfg   cfg\n\tverif VerifClient\n')
sub(K+'client.go',r'(func NewClient\(opts \.\.\.Opt\) \(\*Client, error\) \{\n)',r'\1\tif VerifNewClient != nil {\n\t\treturn verifNewClient(opts)\n\t}\n')
sub(K+'config.go',r'type cfg struct \{\n','type cfg struct {\n\tverifTLS  *tls.Config\n\tverifTags []string\n')
sub(K+'config.go',r'(func DialTLSConfig\(c \*tls\.Config\) Opt \{\n)\treturn Dialer\(',r'\1\ttlsCfg := c\n\treturn verifDialTLS(tlsCfg, ')
with open(K+'zz_verif_hook.go','a') as f:
    f.write('''
func verifDialTLS(c *tls.Config, fn func(context.Context, string, string) (net.Conn, error)) Opt {
	return clientOpt{func(cfg *cfg) { cfg.dialFn = fn; cfg.verifTLS = c }}
}
''')
sub(K+'zz_verif_hook.go','"crypto/tls"\n','"crypto/tls"\n\t"net"\n')
def hook(file,sig,call,ret):
    r='\tif cl.verif != nil {\n\t\t'+('return '+call if ret else call+'\n\t\treturn')+'\n\t}\n'
    sub(K+file,r'(func \(cl \*Client\) '+sig+r' \{\n)',lambda m:m.group(1)+r)
hook('client.go',r'Close\(\)','cl.verif.Close()',False)
hook('consumer.go',r'PollFetches\(ctx context\.Context\) Fetches','cl.verif.PollFetches(ctx)',True)
hook('consumer.go',r'PollRecords\(ctx context\.Context, maxPollRecords int\) Fetches','cl.verif.PollFetches(ctx)',True)
hook('consumer.go',r'PauseFetchPartitions\(topicPartitions map\[string\]\[\]int32\) map\[string\]\[\]int32','cl.verif.PauseFetchPartitions(topicPartitions)',True)
hook('consumer.go',r'ResumeFetchPartitions\(topicPartitions map\[string\]\[\]int32\)','cl.verif.ResumeFetchPartitions(topicPartitions)',False)
hook('consumer.go',r'SetOffsets\(setOffsets map\[string\]map\[int32\]EpochOffset\)','cl.verif.SetOffsets(setOffsets)',False)
hook('consumer.go',r'AllowRebalance\(\)','_ = cl',False)
hook('consumer_group.go',r'LeaveGroup\(\)','cl.verif.LeaveGroup()',False)
hook('consumer_group.go',r'ForceRebalance\(\)','cl.verif.ForceRebalance()',False)
hook('consumer_group.go',r'MarkCommitRecords\(rs \.\.\.\*Record\)','cl.verif.MarkCommitRecords(rs...)',False)
hook('producer.go',r'Produce\(\n\tctx context\.Context,\n\tr \*Record,\n\tpromise func\(\*Record, error\),\n\)','cl.verif.Produce(ctx, r, promise)',False)
hook('producer.go',r'Flush\(ctx context\.Context\) error','cl.verif.Flush(ctx)',True)
hook('txn.go',r'BeginTransaction\(\) error','cl.verif.BeginTransaction()',True)
hook('txn.go',r'EndTransaction\(ctx context\.Context, commit TransactionEndTry\) error','cl.verif.EndTransaction(ctx, commit)',True)
rep=f'\nreplace github.com/twmb/franz-go => {out}/{mod}/franz-go\n'
kv=ver('github.com/twmb/franz-go/pkg/kadm')
if kv:
    copy(f'{MC}/github.com/twmb/franz-go/pkg/kadm@{kv}',tmp+'/kadm')
    A=tmp+'/kadm/'
    shutil.copy(here+'/kadm_hook.go.txt',A+'zz_verif_hook.go')
    def ah(file,sig,call):
        sub(A+file,r'(func \(cl \*Client\) '+sig+r' \{\n)',lambda m:m.group(1)+'\tif VerifAdmin != nil {\n\t\treturn '+call+'\n\t}\n')
    ah('groups.go',r'DescribeGroups\(ctx context\.Context, groups \.\.\.string\) \(DescribedGroups, error\)','cl.verifDescribeGroups(ctx, groups...)')
    ah('topics.go',r'ListTopicsWithInternal\(\n\tctx context\.Context,\n\ttopics \.\.\.string,\n\) \(TopicDetails, error\)','VerifAdmin.ListTopicsWithInternal(cl.cl, topics...)')
    ah('topics.go',r'CreateTopics\(\n.*?\n\) \(CreateTopicResponses, error\)','VerifAdmin.CreateTopics(cl.cl, partitions, replicationFactor, configs, topics...)')
    ah('topics.go',r'DeleteTopics\(ctx context\.Context, topics \.\.\.string\) \(DeleteTopicResponses, error\)','VerifAdmin.DeleteTopics(cl.cl, topics...)')
    rep+=f'\nreplace github.com/twmb/franz-go/pkg/kadm => {out}/{mod}/kadm\n'
open(tmp+'/go.mod','w').write(gm+rep)
shutil.copy(f'{repo}/{mod}/go.sum',tmp+'/go.sum')
try:
    os.rename(tmp,f'{out}/{mod}')
except OSError:
    shutil.rmtree(tmp)
