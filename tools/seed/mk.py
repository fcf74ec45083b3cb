#!/usr/bin/env python3
"""development aid: write /verif/seeded/<id>/ from the specs in seeds*.py (no check reads any of this)"""
import sys,os,subprocess,shutil,json,importlib,re
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
W='/tmp/vx/w'
def special(tag,W):
    def ed(p,*steps):
        f=f'{W}/src/{p}';s=open(f).read();i=0
        for st in steps:
            if st[0]=='to': i=s.index(st[1],i)
            else:
                i=s.index(st[1],i); s=s[:i]+st[2]+s[i+len(st[1]):]; i+=len(st[2])
        open(f,'w').write(s)
    if tag=='empty_info_mode':
        for fn in ('fn compute_tweaked_key<','fn compute_tweak<'):
            ed('poprf.rs',('to',fn),('r','let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);','let mode = if info.is_empty() {\n        Mode::Voprf\n    } else {\n        Mode::Poprf\n    };\n    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);'))
        return
    if tag=='poprf_server_pk':
        return ed('serialization.rs',('to','impl<CS: CipherSuite> PoprfServer<CS>'),('r','CS::Group::serialize_scalar(self.sk).concat(CS::Group::serialize_elem(self.pk))','let pk = CS::Group::base_elem() * &self.sk;\n        CS::Group::serialize_scalar(self.sk).concat(CS::Group::serialize_elem(pk))'))
    if tag=='voprf_server_de':
        return ed('serialization.rs',('to','impl<CS: CipherSuite> VoprfServer<CS>'),('r','let pk = deserialize_elem::<CS::Group>(&mut input)?;','input\n            .take_ext(<CS::Group as Group>::ElemLen::USIZE)\n            .ok_or(Error::Deserialization)?;\n        let pk = CS::Group::base_elem() * &sk;'))
    if tag=='poprf_eval_identity':
        return ed('poprf.rs',('to','    pub fn evaluate('),('r','        if CS::Group::is_identity_elem(input_element).into() {\n            return Err(Error::Input);\n        };\n',''))
    if tag=='poprf_short_seed':
        return ed('poprf.rs',('to','    pub fn new<R'),('r','rng.fill_bytes(&mut seed);','rng.fill_bytes(&mut seed[..32]);'))
    if tag=='proof_drop':
        return ed('voprf.rs',('to','/// A server which engages with a [VoprfClient]'),('r','#[derive_where(Clone, ZeroizeOnDrop)]','#[derive_where(Clone)]'),('r','''    pub(crate) pk: <CS::Group as Group>::Elem,
}
''','''    pub(crate) pk: <CS::Group as Group>::Elem,
}

impl<CS: CipherSuite> Drop for VoprfServer<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn drop(&mut self) {
        // do as little as possible while unwinding
        #[cfg(feature = "std")]
        if std::thread::panicking() {
            return;
        }
        zeroize::Zeroize::zeroize(&mut self.sk);
        zeroize::Zeroize::zeroize(&mut self.pk);
    }
}
'''))
    p={'poprfclient':'serialization.rs','poprfclient-rot':'serialization.rs','tweaked_key_info':'poprf.rs','tweak_zeroize':'poprf.rs','server_info_len':'poprf.rs'}[tag]
    f=f'{W}/src/{p}';s=open(f).read()
    if tag=='poprfclient-rot':
        i=s.index('impl<CS: CipherSuite> PoprfClient<CS>'); j=s.index('        <CS::Group as Group>::serialize_scalar(self.blind)',i); k=s.index('    }',j)
        s=s[:j]+'''        let mut bytes = <CS::Group as Group>::serialize_scalar(self.blind)
            .concat(<CS::Group as Group>::serialize_elem(self.blinded_element));
        bytes.rotate_left(<CS::Group as Group>::ScalarLen::USIZE);
        bytes
'''+s[k:]
        if 'Unsigned' not in s[:s.index('impl<')]: s=s.replace('use generic_array::typenum::','use generic_array::typenum::Unsigned;\nuse generic_array::typenum::',1)
    if tag=='poprfclient':
        i=s.index('impl<CS: CipherSuite> PoprfClient<CS>'); j=s.index('pub fn deserialize',i); k=s.index('Ok(Self',j)
        b=s[j:k]; a=re.findall(r'        let \w+ = [^\n]*\n',b)
        s=s[:j]+b.replace(''.join(a),a[1]+a[0])+s[k:]
    if tag=='tweaked_key_info':
        i=s.index('fn compute_tweaked_key'); j=s.index('Error::Info',i); s=s[:j]+'Error::Input'+s[j+11:]
    if tag=='tweak_zeroize':
        i=s.index('/// Prepared tweak by'); j=s.index('#[derive_where(Clone, ZeroizeOnDrop)]',i); s=s[:j]+'#[derive_where(Clone)]'+s[j+len('#[derive_where(Clone, ZeroizeOnDrop)]'):]
    if tag=='server_info_len':
        i=s.index('fn compute_tweak<'); j=s.index('&info_len',i); s=s[:j]+'&[0, info_len[1]]'+s[j+9:]
    open(f,'w').write(s)
def main(mod,only):
    S=importlib.import_module(mod).S
    for b in S:
        if b.get('skip'): continue
        if only and b['id'] not in only: continue
        if not os.path.isdir(W): subprocess.run(['cp','-a','/repo',W],check=True)
        subprocess.run(['git','-C',W,'checkout','-q','--','.'],check=True); subprocess.run(['git','-C',W,'reset','-q','--hard',subprocess.run(['git','-C','/repo','rev-parse','HEAD'],capture_output=True,text=True).stdout.strip()],check=True)
        if b['id']=='c03-long-info': b['edits']=[('@server_info_len','','')]
        for f,o,n in b['edits']:
            if f[0]=='@': special(f[1:],W); continue
            s=open(f'{W}/src/{f}').read()
            assert s.count(o)==1 or (s.count(o)>1 and b.get('many')),(b['id'],f,s.count(o))
            open(f'{W}/src/{f}','w').write(s.replace(o,n))
        d=f'/verif/seeded/{b["id"]}'; os.makedirs(d,exist_ok=True)
        diff=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
        assert diff
        open(d+'/patch.diff','w').write(diff)
        for x in ('demo.sh','Cargo.toml.in','Cargo.lock'): shutil.copy(f'{H}/{x}',d)
        if b['toy']: shutil.copy(f'{H}/toy.rs',d)
        open(d+'/main.rs','w').write(open(H+'/prelude.rs').read()+('mod toy;\n' if b['toy'] else '')+b.get('items','')+'fn main() {\n    '+b['demo']+'\n}\n')
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        print('made',b['id'])
main(sys.argv[1],sys.argv[2:])
