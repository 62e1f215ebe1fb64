"""Session generators for the bounded stand-in / counterexample search (public API only)."""
import random, json, os, re, base64, string
from oracle import KEYS, MAXTS, B
K1,K2,K3=KEYS['k1'],KEYS['k2'],KEYS['k3']
WEEK=604800
PIECES=['','a','A','z','0','.','..','...','/','//','~','-','_','%','%2F','%2f','%25','%00','+',' ','  ','&','=','?','#',';',':','@','!','$',"'",'"','(',')','*',',','[',']','\\','^','`','{','|','}','<','>',
  '\t','\n','\r','\0','\x7f','é','ß','日本','\u00a0','\u0301','😀','\ufeff','\u2028','\u0130','ſ','x'*50,'%2e','%2E%2e','.hidden','a.','foo','bucket','object','X-Goog-Date','X-Goog-Signature','café','a/b','a/./b','a/../b','/a','a/','%zz','0x','\u0080','\U0010ffff']
SAFE=string.ascii_letters+string.digits+'-._~'
# every standard header name (http::header)
STDH='accept accept-charset accept-encoding accept-language accept-ranges access-control-allow-credentials access-control-allow-headers access-control-allow-methods access-control-allow-origin access-control-expose-headers access-control-max-age access-control-request-headers access-control-request-method age allow alt-svc authorization cache-control cache-status cdn-cache-control connection content-disposition content-encoding content-language content-length content-location content-range content-security-policy content-security-policy-report-only content-type cookie dnt date etag expect expires forwarded from host if-match if-modified-since if-none-match if-range if-unmodified-since last-modified link location max-forwards origin pragma proxy-authenticate proxy-authorization public-key-pins public-key-pins-report-only range referer referrer-policy refresh retry-after sec-websocket-accept sec-websocket-extensions sec-websocket-key sec-websocket-protocol sec-websocket-version server set-cookie strict-transport-security te trailer transfer-encoding user-agent upgrade upgrade-insecure-requests vary via warning www-authenticate x-content-type-options x-dns-prefetch-control x-frame-options x-xss-protection'.split()
class G:
    def __init__(s,seed,lits=()):
        s.r=random.Random(seed)
        s.ls=[l for l in lits if isinstance(l,str)]; s.li=[l for l in lits if isinstance(l,int)]
    def pick(s,*a): return s.r.choice(a)
    def text(s,maxn=5):
        r=s.r; k=r.random()
        if s.ls and k<0.25:
            l=r.choice(s.ls)
            return r.choice([l,l+s.text(1),s.text(1)+l,l.upper(),l.lower(),l+l])
        if s.li and k<0.35:
            n=r.choice(s.li)+r.choice([-1,0,1])
            if 0<=n<=5000: return (r.choice(['a','é','/','%','ab c'])*n)[:n]
        if k<0.5: return ''.join(r.choice(PIECES) for _ in range(r.randint(0,maxn)))
        if k<0.7: return ''.join(chr(r.choice([r.randint(0,127),r.randint(0,127),r.randint(128,0x2ff),r.randint(0x3000,0x30ff),r.randint(0x1f600,0x1f64f)])) for _ in range(r.randint(0,12)))
        if k<0.72: return ''.join(r.choice(SAFE) for _ in range(r.choice([63,64,65,127,128,255,256,257,1000])))
        return ''.join(r.choice(SAFE+' /') for _ in range(r.randint(1,12)))
    def word(s,n=8): return ''.join(s.r.choice(string.ascii_lowercase+string.digits) for _ in range(s.r.randint(1,n)))
    def instant(s):
        r=s.r; k=r.random()
        if k<0.4: sec=r.choice([0,1,59,86399,86400,951782399,951782400,951868800,946684799,946684800,978307199,1077926399,1078012800,1709164800,1709251199,4102444799,4107456000,4107542399,13574563199,
            2147483647,2147483648,4294967295,4294967296,1e9,1e10,1e11,253370764800,MAXTS,MAXTS-1,253402214400,31535999,68169600,1582934400,1583020800,1600000000,1735689599,1735689600])
        elif k<0.8: sec=r.randint(0,MAXTS)
        elif s.li and k<0.9: sec=max(0,min(MAXTS,r.choice(s.li)+r.randint(-1,1)))
        else: sec=r.randint(1577836800,1893456000)
        return [int(sec),r.choice([0,0,0,1,500000000,999999999,r.randint(0,999999999)])]
    def near(s,at,form=False):
        """an expiry"""
        r=s.r; k=r.random()
        offs=[1,2,59,60,3599,3600,86399,86400,WEEK-1,WEEK]+[abs(x) for x in s.li if abs(x)<=WEEK]
        if k<0.7: d=r.choice(offs)
        else: d=r.randint(1,WEEK-1)
        n=at[0]*B+at[1]+d*B+r.choice([0,0,-1,1,-500000000,400000000,999999999])
        n=max(n,at[0]*B+at[1]+(1 if form else 0))
        return [n//B,n%B]
    def region(s): return s.pick(None,None,'auto','us-central1','asia-northeast1','',s.text(2),s.text(3))
    def email(s): return s.pick('',' sa@x','sa@x\n','SA@X','sa@p.iam.gserviceaccount.com','test@example.com','e+x@x.y','a b@c',s.text(2),s.word())
    def hm(s): return [s.pick('','GOOG1EXAMPLE','a',s.word(),s.text(1)),s.pick('','',' ','s','secret',K1,s.word(),s.text(1),s.word(40))]
    def ident(s):
        """an identity as the metadata server may give it: any case, punctuation, blanks"""
        r=s.r; k=r.random()
        if k<.3: return s.email()
        e=list('Svc-%s@Proj.iam.GServiceAccount.com'%s.word())
        if k<.6: return ''.join(e)
        for _ in range(r.choice([1,1,2])): e.insert(r.randint(0,len(e)),r.choice(',;:<>"()[]| \t\n\r/\\%+&=?#*~!$\'^`{}\u00e9\u3000\ufeff'))
        return ''.join(e)
    def mutated(s,text):
        """one character of a good body changed, dropped, doubled or added"""
        r=s.r; i=r.randrange(len(text)); k=r.random(); c=r.choice('AZaz09+/=-_ \n\t"\\,:{}\u00e9\ufeff')
        if k<.5: return text[:i]+c+text[i+1:]
        if k<.7: return text[:i]+text[i+1:]
        return text[:i]+c+text[i:]
    def trailing(s):
        """signBlob text whose last Base64 character carries bits beyond the data"""
        r=s.r; A='ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
        b=base64.b64encode(r.randbytes(r.choice([1,2,4,5,256]))).decode(); n=b.index('='); i=A.index(b[n-1])
        return b[:n-1]+A[i|r.choice([1,2,3] if b.endswith('=') and not b.endswith('==') else [1,2,4,8,15])]+b[n:]
    def hname(s):
        r=s.r; k=r.random()
        if r.random()<.12: return s.case(r.choice(STDH))
        if s.ls and k<0.2:
            l=''.join(c for c in r.choice(s.ls) if c in string.ascii_letters+string.digits+"!#$%&'*+-.^_`|~")
            if l: return s.case(l)
        base=r.choice(['x-goog-meta-a','x-goog-meta-b','content-type','Content-MD5','X-Goog-Acl','range','host','x','X-A','x-a','a!','z~z','Accept','x-goog-content-length-range','x-goog-resumable','cookie','x-goog-hash','a'+s.word(),s.word(),'authorization','x-goog-encryption-key','0','x-goog-meta-a.b','x_y','x-b'])
        return s.case(base)
    def case(s,b):
        k=s.r.random()
        return b if k<0.4 else b.upper() if k<0.6 else b.title() if k<0.8 else ''.join(c.upper() if s.r.random()<.5 else c for c in b)
    def hval(s):
        r=s.r; k=r.random()
        if s.ls and k<0.2: return ''.join(c for c in r.choice(s.ls) if 32<=ord(c)<127)
        return r.choice(['','v',' v','v ','  v  ','\tv\t','a,b',' a , b ','a  b','a\tb','text/plain; charset=utf-8','x:y','"q"',s.word(),s.word(20),' ',',','\t ','A','bytes=0-10',''.join(chr(r.randint(32,126)) for _ in range(r.randint(0,20)))])
    def headers(s,n=None):
        r=s.r
        n=r.choice([0,0,1,2,3,5,8]) if n is None else n
        hs=[[s.hname(),s.hval()] for _ in range(n)]
        if hs and r.random()<.5:
            d=r.choice(hs); hs.insert(r.randint(0,len(hs)),[s.case(d[0]),s.hval()])
        return hs
    def query(s,n=None):
        r=s.r; n=r.choice([0,0,1,2,3,6]) if n is None else n
        q=[[s.text(3),s.text(3)] for _ in range(n)]
        if q and r.random()<.4: q.append(list(r.choice(q)))
        if q and r.random()<.3: q.append([r.choice(q)[0],s.text(2)])
        if r.random()<.1: q.append([r.choice(['X-Goog-Date','X-Goog-Algorithm','X-Goog-Signature','X-Goog-Expires','x-goog-date','response-content-type','X-Goog-SignedHeaders']),s.text(1)])
        return q
    def names(s):
        r=s.r
        while True:
            b=s.text(3) if r.random()<.5 else s.word(); o=s.text(6) if r.random()<.8 else '/'.join(s.text(2) for _ in range(r.randint(1,5)))
            if r.random()<.93 and (b in('.','..') or any(x in('.','..') for x in o.split('/'))): continue
            return b,o
    def sa(s,k=None): return {'sa':[s.email(),k or s.pick(K1,K1,K1,K2,K3)]}
    def url(s,**kw):
        r=s.r; at=s.instant(); b,o=s.names()
        d=dict(do='url',bucket=b,object=o,region=s.region(),expires=s.near(at),method=s.pick('GET','GET','PUT','POST','DELETE','HEAD'),at=at,key=s.sa(),blob=False,headers=s.headers(),query=s.query())
        d.update(kw)
        if 'at' in kw and 'expires' not in kw and kw['at'] is not None: d['expires']=s.near(kw['at'])
        return d
    FIELDS=['acl','bucket','cache_control','content_disposition','content_encoding','content_length','content_type','expires','key','success_action_redirect','success_action_status','x_goog_custom_time']
    def fval(s,n):
        r=s.r
        if n=='content_length': return r.choice([0,1,9,10,255,1024,2**31,2**32,2**53+1,2**63,2**64-1,r.randint(0,2**64-1)]+[x for x in s.li if 0<=x<2**64])
        if n=='success_action_status': return r.choice([0,1,200,201,204,99,65535,r.randint(0,65535)]+[x for x in s.li if 0<=x<65536])
        return s.text(4)
    def fields(s,need=(),p=0.5,meta=True):
        r=s.r
        names=[n for n in s.FIELDS if n in need or r.random()<p]
        fs=[[n,s.fval(n)] for n in names]
        if r.random()<.2: 
            n=r.choice(s.FIELDS); fs.append([n,s.fval(n)])
        if meta:
            for _ in range(r.choice([0,0,1,2,3,6])): fs.append(['x_goog_meta',[s.text(3) or 'm',s.text(3)]])
            if r.random()<.3 and fs and fs[-1][0]=='x_goog_meta': fs.append(['x_goog_meta',[fs[-1][1][0],s.text(2)]])
            if r.random()<.15: fs.append(['x_goog_meta',[r.choice(['acl','policy','x-goog-date','signature','key','file','Content-Length']),s.text(2)]])
        r.shuffle(fs)
        return fs
    def opts(s,**kw):
        at=s.instant()
        d=dict(at=at,expiration=s.near(at,True),region=s.region(),key=s.sa(),blob=False)
        d.update(kw)
        if d['expiration'][0]>MAXTS: d['expiration']=[min(d['expiration'][0],MAXTS),999999999]; 
        return d
    def form(s,**kw):
        d=dict(do='form',fields=s.fields(('key','bucket')),opts=s.opts(),opts_at=s.r.choice([0,1,99]))
        d.update(kw); return d
    # bound token sessions
    def token(s,exp=None,tok=None,typ='Bearer'):
        return json.dumps({'access_token':tok or 'tok'+s.word(),'expires_in':3600 if exp is None else exp,'token_type':typ})
    def sig(s):
        r=s.r; k=r.random()
        if k<.3: return bytes(r.choice([0,1,9,10,15,16,127,128,255]) for _ in range(r.randint(0,6)))
        if k<.4: return bytes(range(256))
        if k<.45: return b'\0'*r.randint(1,8)
        if s.li and k<.55: n=max(0,min(5000,r.choice(s.li)+r.randint(-1,1))); return r.randbytes(n)
        return r.randbytes(r.choice([1,2,31,32,255,256,257,384,512]))
    def good_replies(s,n=8,exp=3600):
        return dict(do='replies',email=[{'body':'sa%d@x.iam'%i} for i in range(n)],token=[{'body':s.token(exp,'tok%d'%i)} for i in range(n)],
                    sign=[{'body':json.dumps({'keyId':'k','signedBlob':base64.b64encode(s.sig()).decode()})} for i in range(n)])
    def bad_reply(s,kind):
        r=s.r; good={'email':'sa@x.iam','token':s.token(),'sign':json.dumps({'keyId':'k','signedBlob':base64.b64encode(s.sig()).decode()})}[kind]
        k=r.random()
        if k<.15: return {'exec_err':True}
        if k<.25:  # a reply of arbitrary text, long and not ASCII
            n=max(0,r.choice([0,1,15,16,31,63,64,100,127,128,200,255,256,500,511,512,1000,1023,1024,2047,2048,4095,4096]+[x for x in s.li if 0<=x<20000])+r.choice([-3,-2,-1,0,1]))
            return {'body':r.choice(['x','\u00e9','a\u20ac'])*n+r.choice(['\u00e9','\u20ac','\U0001f600'])*r.randint(0,8),'status':r.choice([200,400,403,404,500,503,302])}
        if k<.3: return {'body':good,'body_err':True}
        if k<.6: return {'body':good,'status':r.choice([100,101,199,300,301,302,304,399,400,401,403,404,429,500,503,599,600,999]+[x for x in s.li if 100<=x<1000])}
        if kind=='email': return {'body':good,'status':r.choice([201,204,299,200,206])}
        bodies={'token':['','null','[]','{}','"Bearer"','not json',s.token(typ='bearer'),s.token(typ='BEARER'),s.token(typ='Bearer '),s.token(typ=''),s.token(typ='Basic'),s.token(typ=None),s.token(typ='Bearer\0'),
                 '{"access_token":"t","expires_in":3600}','{"access_token":"t","token_type":"Bearer"}','{"expires_in":3600,"token_type":"Bearer"}','{"access_token":1,"expires_in":3600,"token_type":"Bearer"}',
                 '{"access_token":"t","expires_in":"3600","token_type":"Bearer"}','{"access_token":"t","expires_in":-1,"token_type":"Bearer"}','{"access_token":"t","expires_in":3600.5,"token_type":"Bearer"}',
                 s.token()+'x',s.token()[:-1],s.token()+' \n',' '+s.token(),'{"access_token":"t","expires_in":18446744073709551615,"token_type":"Bearer"}','{"access_token":"t","expires_in":9223372036854775807,"token_type":"Bearer"}','{"access_token":"t","expires_in":18446744073709551616,"token_type":"Bearer"}',
                 '{"access_token":"t","expires_in":3600,"token_type":"Bearer","extra":[1,{"a":null}]}']+[s.token(typ=l) for l in s.ls[:20]],
          'sign':['','null','[]','{}','nope',json.dumps({'keyId':'k'}),json.dumps({'keyId':'k','signedBlob':None}),json.dumps({'keyId':'k','signedBlob':'!!!!'}),json.dumps({'keyId':'k','signedBlob':'AAA'}),json.dumps({'keyId':'k','signedBlob':'AAE_'}),
                 json.dumps({'keyId':'k','signedBlob':'AA=='}),json.dumps({'keyId':'k','signedBlob':''}),json.dumps({'keyId':'k','signedBlob':' AA=='}),json.dumps({'keyId':'k','signed_blob':'AA=='}),json.dumps({'keyId':'k','signedBlob':'AA==\n'}),json.dumps({'keyId':'k','signature':'AA==','signedBlob':'AQ=='}),
                 json.dumps({'keyId':'k','signedBlob':['AA==']})]}[kind]
        if r.random()<.3: bodies=[s.mutated(good)]
        elif kind=='sign' and r.random()<.3: bodies=[json.dumps({'keyId':'k','signedBlob':r.choice([s.trailing(),s.mutated(base64.b64encode(r.randbytes(8)).decode())])})]
        return {'body':r.choice(bodies),'status':r.choice([200,200,200,201,204,299])}
    def bt_call(s,now,slot=0):
        if s.r.random()<.7:
            return s.url(key=slot,blob=True,at=None,expires=[now[0]+s.r.choice([1,60,3600]),now[1]],headers=[],query=[])
        return s.form(fields=[['key',s.word()],['bucket',s.word()]],opts=s.opts(at=None,expiration=[now[0]+3600,0],key=slot,blob=True,region=None))
def sess(ops,clock=None,focus=None,**k):
    d={'clock':clock or [1700000000,0,0],'ops':ops}
    if focus: d['focus']=[focus]
    d.update(k); return d
def cache_session(g,focus,fail=False):
    """a history of uses of one bound key (and clones) with the clock moving between them"""
    r=g.r; now=[r.choice([1700000000,r.randint(1,4*10**9)]),r.choice([0,0,1,999999999,500000000])]
    host=g.pick(None,'meta.test','127.0.0.1:8080')
    n=r.randint(2,6); exp=g.pick(0,1,29,30,31,32,59,60,61,100,3599,3600,*[x for x in g.li if 0<=x<10**9])
    ops=[]; reps=g.good_replies(24); 
    for t in reps['token']: t['body']=g.token(r.choice([exp,exp,exp,30,31,3600,86400]),'tok'+g.word())
    for e in reps['email']: e['body']=g.pick('sa@x.iam','o-'+g.word()+'@y.iam',g.word(),g.ident())
    for k in('email','token','sign'):
        for x in reps[k]:
            if r.random()<.3: x['delay']=[r.choice([0,1,5,29,30,31,40]),r.choice([0,0,1,999999999])]
    if fail:
        for k in('email','token','sign'):
            for i in range(len(reps[k])):
                if r.random()<.25:
                    d=reps[k][i].get('delay'); reps[k][i]=g.bad_reply(k)
                    if d: reps[k][i]['delay']=d
    ops.append(reps); ops.append(dict(do='key',slot=0,key={'bt':host})); slots=[0]
    for i in range(n):
        if r.random()<.35: 
            ops.append(dict(do='clone',**{'from':r.choice(slots)},slot=len(slots))); slots.append(len(slots))
        # far-future expiry so that only the token logic is exercised
        c=g.bt_call([now[0]+200000,0],r.choice(slots)); 
        ops.append(c)
        e=r.choice([exp,exp,3600,30])
        d=r.choice([0,1,max(0,e-32),max(0,e-31),max(0,e-30),max(0,e-29),e,e+1,e+31,10,r.randint(0,4000)])
        dn=r.choice([0,0,0,1,999999999])
        ops.append(dict(do='advance',by=[d,dn]))
        if r.random()<.2:   # the clock is set, also back to an earlier instant
            u=now[0]+r.choice([-1,0,0,1,10,100,-3600,r.randint(-100,8000)])
            if u>=0: ops.append(dict(do='clock',at=[u,r.choice([0,now[1],999999999])]))
    return sess(ops,clock=[now[0],now[1],0],focus=focus)
JSONS=None
def json_docs(g):
    r=g.r; e=g.pick('a@b.c',g.email(),g.text(2)); p=g.pick(K1,K1,K2,'not a key','',K1.replace('\n','\\n'),K1.replace('\n','\r\n'),K1.strip(),' '+K1,K1+' \n',K1+K2,K1.replace('\n',''))
    base={'client_email':e,'private_key':p,'type':'service_account','project_id':'x'}
    k=r.random()
    if k<.4:
        d=dict(base)
        if r.random()<.5: d['client_id']=g.pick('x',1,None); d['private_key_id']='zz'; d['token_uri']='https://x'; d['client_email_2']='other@x'; d['Client_Email']='bad@x'
        items=list(d.items()); r.shuffle(items); return json.dumps(dict(items),ensure_ascii=r.random()<.5 and False,indent=r.choice([None,1]))
    if k<.6:
        d=dict(base); n=g.pick('client_email','private_key'); d[n]=g.pick(None,1,True,[],{},['a'],{'a':'b'},1.5); return json.dumps(d)
    if k<.75:
        d=dict(base); n=g.pick('client_email','private_key'); v=d.pop(n); h=n.split('_'); d[g.pick(n.upper(),n+'s',n.replace('_',''),'x',n+' ',h[0]+h[1].title(),h[1],n.replace('_','-'),*g.ls)]=v; return json.dumps(d)
    if k<.85:
        d={'web':base,'installed':base}; return g.pick(json.dumps(d),json.dumps([base]),json.dumps(json.dumps(base)),'null','1','"x"','[]','{}','','true')
    if k<.9: return '{"client_email":"x@y","client_email":"z@w","private_key":%s}'%json.dumps(K1)
    s=json.dumps(base); 
    return g.pick(s[:-1],s+'x',s+' ',' '+s,'\ufeff'+s,s.replace(':','=',1),s.replace('"',"'"),s+s,s.replace(',',',,',1),s[:r.randint(0,len(s))],'// c\n'+s)
def generate(prop,seed,lits=(),scratch=None):
    g=G('%s/%s'%(prop,seed),lits); r=g.r
    i=0
    while True:
        i+=1
        f=prop
        if prop in('C01','C05'):
            if i%4==0:
                yield sess([g.good_replies(4),dict(do='key',slot=0,key={'bt':None}),g.url(key=0,blob=True,at=g.instant())],focus=f); continue
            if i%4==1: yield sess([hook_canon(g)],focus=f); continue
            yield sess([g.url()],focus=f)
        elif prop=='C02':
            if i%3==0: yield sess([hook_canon(g)],focus=f); continue
            hs=g.headers(r.choice([1,2,3,5,9,20]))
            if r.random()<.08: hs.append([g.pick('','a b','é','x:','a\n','(x)'),'v'])
            if r.random()<.08: hs.append(['x-bad',g.pick('\n','a\0','\x7f','é','日本')])
            yield sess([g.url(headers=hs,bucket='b',object='o',query=[])],focus=f)
        elif prop=='C03':
            if i%3==0: yield sess([dict(do='hook',fn='percent_encode_component',arg=g.text(8))]+([hook_canon(g)]),focus=f); continue
            if i<=130:
                c=chr(i-1) if i<=129 else 'é'
                yield sess([g.url(query=[['a'+c,'b'],['a',c+'b'],[c,c]],bucket='b',object='o')],focus=f); continue
            yield sess([g.url(query=g.query(r.choice([1,2,4,8,30])),bucket='b',object='o',headers=[])],focus=f)
        elif prop=='C04':
            if i<=130:
                c=chr(i-1)
                yield sess([dict(do='hook',fn='percent_encode',arg='x'+c+'/y'+c),g.url(object='o'+c+'x',bucket='b'+c)],focus=f); continue
            if i%2: yield sess([dict(do='hook',fn='percent_encode',arg=g.text(8)),hook_canon(g)],focus=f); continue
            yield sess([g.url(query=[],headers=[])],focus=f)
        elif prop=='C06':
            at=g.instant()
            if i%4==3:
                reps=g.good_replies(2); reps['email']=[{'body':g.ident()}]*2
                yield sess([reps,dict(do='key',slot=0,key={'bt':None}),g.url(key=0,blob=True,at=at,region=g.pick(None,None,'auto','',g.text(3),'us'),headers=[],query=[],bucket='b',object='o')],focus=f); continue
            yield sess([g.url(region=g.pick(None,None,'auto','',g.text(3),'us'),headers=g.headers(r.choice([0,1])),query=g.query(r.choice([0,1,2])),bucket='b',object='o')],focus=f)
        elif prop=='C07':
            at=g.instant(); a=at[0]*B+at[1]
            d=r.choice([0,1,B-1,B,B+1,-1,-B,WEEK*B-1,WEEK*B,WEEK*B+1,WEEK*B+B-1,WEEK*B+B,WEEK*B+2*B,r.randint(0,WEEK*B),2**31*B,2**32*B,2**32*B+5*B,2**33*B,(2**32+WEEK)*B,-10*B]+[x*B for x in g.li]+[(x+1)*B for x in g.li]+[x*B-1 for x in g.li])
            e=a+d
            if e<-10**12*B or e//B>=2**60: continue
            c=g.url(at=at,expires=[e//B,e%B],bucket='b',object='o',headers=[],query=[])
            if i%5==0: c['at']=None; yield sess([c],clock=[at[0],at[1],r.choice([0,0,1000])],focus=f)
            else: yield sess([c],focus=f)
        elif prop=='C08':
            at=g.instant() if i%6 else r.choice([[-1,999999999],[-1,0],[MAXTS,999999999],[MAXTS+1,0],[MAXTS+10**6,0],[2**40,0],[-62167219200,0],[-10**9,5]])
            pre=[dict(do='env',name='TZ',value=g.pick('JST-9','XXX11','UTC','Asia/Tokyo'))] if i%4<2 else []
            if i%5==0:
                d=[r.choice([86400,3600,60,1])*r.randint(1,10**6)-1,r.choice([999999999,999999998,999000000])]; e=[d[0]+r.choice([2,60,3600]),0]
                c=g.url(at=None,expires=e,bucket='b',object='o',headers=[],query=[]) if r.random()<.6 else g.form(fields=[['key','k'],['bucket','b']],opts=g.opts(at=None,expiration=e))
                yield sess([c],clock=[d[0],d[1],r.choice([1,1000,1000000,10**9])],focus=f)
            elif i%2: yield sess(pre+[g.url(at=at,bucket='b',object='o',headers=[],query=[])],focus=f)
            else:
                o=g.opts(at=at)
                k=r.random(); a=at[0]*B+at[1]
                e=a+r.choice([1,B,B//2,3600*B,WEEK*B,10**6*B,10**9*B])
                o['expiration']=[e//B,e%B]
                yield sess(pre+[g.form(fields=[['key','k'],['bucket','b']],opts=o)],focus=f)
        elif prop=='C09':
            b,o=g.names()
            if i<=len(PIECES)*2: 
                q=PIECES[(i-1)//2]; b,o=(q,'o') if i%2 else ('b',q)
            elif r.random()<.1: b,o=r.choice([('.','o'),('..','o'),('b','.'),('b','..'),('b','a/../c'),('b','./x'),('b','x/.'),('b','x/..'),('b','../../x'),('%2e','o'),('b','%2e%2e/x'),('b','.%2e'),('','..'),('b','a/.%2E/c')])
            yield sess([g.url(bucket=b,object=o,headers=[],query=[])],focus=f)
        elif prop=='C10':
            m=g.pick('GET','PUT','POST','DELETE','HEAD')
            if i%3==0: m=g.pick('get','Get','put','PATCH','OPTIONS','RESUMABLE','',' GET','GET ','GET\n','TRACE','CONNECT','POSt','HEAD\0','COPY',m.lower(),m.title(),m[:-1],m+m,'ＧＥＴ','PUT,GET',g.text(2),*[l for l in g.ls][:50])
            if i%7==0:
                yield sess([g.good_replies(4),dict(do='key',slot=0,key={'bt':None}),g.url(key=0,blob=True,method=m,headers=[],query=[])],focus=f); continue
            yield sess([g.url(method=m,bucket='b',object='o',headers=g.headers(r.choice([0,2])),query=[])],focus=f)
        elif prop in('C11','C12','C13'):
            if prop=='C11' and i%3==0: yield sess([g.form(opts=None,fields=g.fields(('key',)))],focus=f); continue
            if i%5==0:
                yield sess([g.good_replies(4),dict(do='key',slot=0,key={'bt':None}),g.form(opts=g.opts(key=0,blob=True))],focus=f); continue
            if i%5==1: yield sess([g.form(fields=g.fields(('key','bucket'),p=0.08))],focus=f); continue
            yield sess([g.form()],focus=f)
        elif prop=='C14':
            fs=g.fields(('key','bucket'),p=.3); o=g.opts()
            k=r.random()
            if k<.12: fs=[x for x in fs if x[0]!='key']
            elif k<.24: fs=[x for x in fs if x[0]!='bucket']
            elif k<.36: fs.insert(r.randint(0,len(fs)),['x_goog_meta',['',g.text(1)]])
            elif k<.56:
                a=o['at'][0]*B+o['at'][1]+r.choice([0,-1,-B,1,-B//2,B,0,0]); o['expiration']=[a//B,a%B]
            elif k<.66: o['key']={'hmac':g.hm()}; o['blob']=g.pick(True,False)
            elif k<.72: o['at']=r.choice([[-1,0],[MAXTS+1,0],[-1,999999999]]); o['expiration']=[max(0,o['at'][0]+100),0]
            elif k<.78: o['at']=[MAXTS-5,0]; o['expiration']=[MAXTS+1,0]
            if r.random()<.2: o=None
            yield sess([g.form(fields=fs,opts=o)],focus=f)
        elif prop=='C15':
            if i%6==0: yield par_session(g,f); continue
            if i%6==1: yield abort_session(g,f); continue
            if i%6==2: yield margin_session(g,f); continue
            yield cache_session(g,f)
        elif prop=='C16': yield cache_session(g,f,True)
        elif prop=='C17':
            if i%2: yield cache_session(g,f,i%4==1); continue
            reps=g.good_replies(2); 
            if r.random()<.5: reps['sign']=[g.bad_reply('sign')]
            if r.random()<.2: reps['token']=[{'body':g.token(3600,g.pick('t k','ya29.a-b_c','x'*2000,'a"b','é','a\nb'))}]*2
            if r.random()<.4: reps['email']=[{'body':g.pick('a b@c','a/b','é@x','a%20b','sa+1@x',' sa@x','sa@x ','sa@x\n','\tsa@x','sa@x\u3000','SA@X.Iam','sa@x\r\n','',*g.ls[:20],g.ident(),g.ident(),g.ident())}]*2
            yield sess([reps,dict(do='key',slot=0,key={'bt':None}),g.url(key=0,blob=True) if r.random()<.5 else g.form(opts=g.opts(key=0,blob=True))],focus=f)
        elif prop=='C18':
            kind=g.pick('sa','sa','hmac','bt','pem'); blob=g.pick(True,False)
            reps=g.good_replies(4)
            key={'sa':{'sa':[g.email(),g.pick(K1,K2,K3)]},'hmac':{'hmac':g.hm()},'bt':0,'pem':{'sa':['x@y',g.pick('',K1[:200],K1.replace('M','N',3),'x',K1.replace('PRIVATE','PUBLIC'),K1.replace('PRIVATE KEY','RSA PRIVATE KEY'))]}}[kind]
            if kind=='pem' and key['sa'][1]!='' and r.random()<.5: key['sa'][1]=''
            c=g.url(key=key,blob=blob,headers=[],query=[]) if r.random()<.5 else g.form(opts=g.opts(key=key,blob=blob))
            yield sess([reps,dict(do='key',slot=0,key={'bt':None}),c],focus=f)
        elif prop=='C19':
            t=json_docs(g)
            if i%3==0 and scratch:
                p=os.path.join(scratch,'k%d.json'%(i%512)); b=t.encode('utf-8','surrogatepass')
                if r.random()<.15: b=b+b'\xff'
                elif r.random()<.1: b=t.encode('utf-16')
                elif r.random()<.1: b=b.replace(b'a',b'\xe9',1)
                if r.random()<.05: p=os.path.join(scratch,'missing')
                elif r.random()<.05: p=scratch
                else:
                    p=os.path.join(scratch,'k%d.json'%i); open(p,'wb').write(b)
                key={'file':p}
            else: key={'json':t}
            yield sess([dict(do='key',slot=0,key=key),g.url(key=key,headers=[],query=[],bucket='b',object='o') if r.random()<.5 else g.form(fields=[['key','k'],['bucket','b']],opts=g.opts(key=key))],focus=f)
        elif prop=='C20': yield wild(g,i,scratch)
        elif prop=='C21':
            if i%2: yield sess([g.good_replies(4),dict(do='key',slot=0,key={'bt':None}),g.url(key=0,blob=True,headers=[],query=[]),g.form(fields=[['key','k'],['bucket','b']],opts=g.opts(key=0,blob=True))],focus=f)
            elif i%4==0: yield sess([dict(do='hook',fn='hex_encode',arg=g.sig().hex())],focus=f)
            else: yield sess([g.url(headers=[],query=[],bucket='b')],focus=f)
        elif prop=='C22': yield det_session(g,f)
        else: return
def hook_canon(g):
    r=g.r
    path=''.join(r.choice(SAFE+"/!$&'()*+,:;=@") for _ in range(r.randint(0,12)))
    tok=lambda: ''.join(r.choice(list(SAFE+"+!:@/?*'();,$")+['%20','%2B','%26','%3D','%C3%A9','%00','%25','%7E','%2f','%41']) for _ in range(r.randint(0,6)))
    q='&'.join('='.join(tok() for _ in range(r.choice([1,2,2,2]))) for _ in range(r.randint(0,4)))
    return dict(do='hook',fn='canonical_request',method=g.pick('GET','PUT','POST','HEAD','DELETE'),uri='/'+path+('?'+q if q else ''),headers=g.headers())
def margin_session(g,f):
    """a second call within a hair of the 30 s margin (or of another bound the source spells) before the cached token expires"""
    r=g.r; t0=r.choice([1700000000,r.randint(1,4*10**9)])*B+r.choice([0,0,1,500000000,999999999])
    exp=g.pick(31,60,61,100,3599,3600,86400); reps=g.good_replies(6)
    for x in reps['token']: x['body']=g.token(exp,'tok'+g.word())
    for x in reps['email']: x['body']=g.word()+'@x.iam'
    m=r.choice([30,30,30,30,0,*[x for x in g.li if 0<=x<=exp]])
    ops=[reps,dict(do='key',slot=0,key={'bt':None}),g.bt_call([t0//B+200000,0])]
    if r.random()<.3: ops.append(dict(do='clone',**{'from':0},slot=1))
    u=t0+(exp-m)*B+r.choice([0,0,1,-1,B,-B,10**6,-10**6,5*10**5,-5*10**5,999,-999,B//2,-B//2,B-1,1-B,r.randint(-B,B)])
    ops+=[dict(do='clock',at=[u//B,u%B]),g.bt_call([t0//B+200000,0],r.choice([0,len(ops)-3]))]
    return sess(ops,clock=[t0//B,t0%B,0],focus=f)
def par_session(g,f):
    r=g.r; n=r.choice([2,3,5]); reps=g.good_replies(12)
    exp=r.choice([3600,3600,31,g.pick(61,3600,*[x for x in g.li if 30<x<10**9]),30,10,0])   # at most 30 s: every use fetches anew
    for k in('email','token'):
        for i,x in enumerate(reps[k]): x['body']='sa%d@x.iam'%i if k=='email' else g.token(exp,'tok%d'%i)
    ops=[reps,dict(do='key',slot=0,key={'bt':None})]+[dict(do='clone',**{'from':0},slot=j) for j in range(1,n)]
    calls=[g.url(key=r.randrange(n),blob=True,at=[1700000000,0],bucket='b%d'%j,object='o',headers=[],query=[]) for j in range(n)]
    ops.append(dict(do=g.pick('par','threads'),calls=calls,share=[1,1] if exp>30 else [2*n,2*n],pairs=[['sa%d@x.iam'%i,'tok%d'%i] for i in range(12)]))
    return sess(ops,focus=f)
def abort_session(g,f):
    """a call dropped while it waits; later calls must still behave as if it was never there or had completed its fetch"""
    r=g.r; reps=g.good_replies(6)
    for k in('email','token'):
        for i,x in enumerate(reps[k]): x['body']='sa%d@x.iam'%i if k=='email' else g.token(3600,'tok%d'%i)
    ops=[reps,dict(do='key',slot=0,key={'bt':None}),
         dict(do='abort',polls=r.randint(0,12),call=g.url(key=0,blob=True,at=[1700000000,0],bucket='b',object='o',headers=[],query=[])),
         dict(g.good_replies(6)),
         dict(do='par',pairs=[['sa0@x.iam','tok0'],['sb0@x.iam','tob0'],['sb1@x.iam','tob1']],calls=[g.url(key=0,blob=True,at=[1700000000,0],bucket='b',object='o',headers=[],query=[]) for _ in range(2)])]
    for i,x in enumerate(ops[3]['email']): x['body']='sb%d@x.iam'%i
    for i,x in enumerate(ops[3]['token']): x['body']=g.token(3600,'tob%d'%i)
    return sess(ops,focus=f)
def det_session(g,f):
    r=g.r
    c=g.url() if r.random()<.6 else g.form()
    other=[g.url(),g.form(),g.url(method='nope'),g.form(fields=[])]
    # a call without explicit instant must equal the call with the clock's instant
    at=c.get('at') or (c.get('opts') or {}).get('at')
    ops=[dict(do='clock',at=g.instant()),c]
    for _ in range(r.randint(1,3)):
        ops.append(r.choice(other))
        k=r.random()
        if k<.4: ops.append(dict(do='clock',at=g.instant()))
        elif k<.6: ops.append(dict(do='env',name=g.pick('TZ','GCE_METADATA_HOST','GOOGLE_APPLICATION_CREDENTIALS','SOURCE_DATE_EPOCH','HOME','LANG',*[l for l in g.ls if re.fullmatch('[A-Z_]{3,40}',l)]),value=g.pick('x','UTC+9','Asia/Tokyo','1',None)))
    ops.append(c)
    ops.append(dict(do='clock',at=at)); d=json.loads(json.dumps(c))
    if d['do']=='url': d['at']=None
    else: d['opts']['at']=None
    ops.append(d)
    if r.random()<.3: ops.append(dict(do='threads',calls=[c,r.choice(other),c,d] ))
    return sess(ops,clock=[1700000000,0,0],focus=f)
def wild(g,i,scratch):
    r=g.r; k=i%12
    ext=[[-2**62,0],[2**62,0],[-1,999999999],[MAXTS,999999999],[MAXTS+1,0],[2**63-1,999999999],[-2**63,0],[-62167219201,0],[0,0],[8210266876799,0],[8210266876800,0],[253402300800,0],[1700000000,0]]
    t=lambda: g.text(8) if r.random()<.8 else g.text(3)*r.choice([1,50,2000])
    if k<4:
        c=g.url(bucket=t(),object=t(),region=g.pick(None,t()),headers=[[g.pick(t(),g.hname()),g.pick(t(),g.hval())] for _ in range(r.randint(0,4))],query=[[t(),t()] for _ in range(r.randint(0,4))],method=g.pick('GET','PUT','get',t()))
        if r.random()<.3: c['at']=r.choice(ext); c['expires']=r.choice(ext)
        if r.random()<.1: c['key']=g.pick({'hmac':g.hm()},{'sa':[t(),t()]},{'sa':[t(),K1[:300]]},{'sa':['',K1]})
        c['blob']=r.random()<.1
        return sess([c])
    if k==4 and i<600:
        n=r.choice([24576,24577,32768,32769,70000,5000,10000])
        hs=[['x%d'%j,'v'] for j in range(n)] if r.random()<.5 else [['x','v']]*n
        return sess([g.url(headers=hs,query=[],bucket='b',object='o')])
    if k==5 and i<600: 
        n=r.choice([65500,66000,30000,70000,200000])
        return sess([g.pick(g.url(object='a'*n),g.url(bucket='b'*n),g.url(query=[['k','v'*n]]),g.url(region='r'*n),g.url(headers=[['x','v'*n]]),g.url(headers=[['h'*n,'v']]),g.url(key={'sa':['e'*n,K1]}))])
    if k<8:
        o=g.opts(region=g.pick(None,t())) if r.random()<.8 else None
        if o and r.random()<.4: o['at']=r.choice(ext); o['expiration']=r.choice(ext)
        if o and r.random()<.1: o['key']=g.pick({'hmac':g.hm()},{'sa':[t(),t()]})
        if o: o['blob']=r.random()<.1
        fs=[[n,g.fval(n)] for n in g.FIELDS if r.random()<.6]+[['x_goog_meta',[t(),t()]] for _ in range(r.randint(0,3))]
        return sess([g.form(fields=fs,opts=o)])
    if k==8:
        key={'json':g.pick(json_docs(g),t(),'['*200,'{"a":'*200,'['*100000)} 
        return sess([dict(do='key',slot=0,key=key)])
    if k==9 and scratch:
        p=os.path.join(scratch,'w%d'%(i%256)); open(p,'wb').write(g.r.randbytes(r.randint(0,50)))
        return sess([dict(do='key',slot=0,key={'file':g.pick(p,scratch,'/nonexistent','','a\0b')})])
    s=cache_session(g,'C20',True)
    for op in s['ops']:
        if op['do']=='replies':
            for kk in('email','token','sign'):
                for x in op[kk]:
                    if r.random()<.2: x['body']=t(); 
                    if r.random()<.05: x['hex']=g.sig().hex()
    s['clock']=[r.choice([1700000000,0,1,MAXTS,MAXTS-100,2**40,2**62]),0,0]
    return s
