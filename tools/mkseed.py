"""mkseed.py FILE...: writes seeded/<id>/ from a description (python file defining id, property, edits, needs, breaks, main)."""
import sys,os,json,subprocess,shutil
PRE='''#![allow(unused)]
use bluejay_core::AsIter;
use bluejay_parser::ast::{definition::{DefinitionDocument, SchemaDefinition}, executable::ExecutableDocument, Parse};
use bluejay_validator::executable::{document::BuiltinRulesValidator, Cache};

fn errors(sdl: &str, doc: &str) -> Vec<String> {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    let ed = ExecutableDocument::parse(doc).unwrap();
    let cache = Cache::new(&ed, &sd);
    let errs: Vec<bluejay_parser::Error> = BuiltinRulesValidator::validate(&ed, &sd, &cache).map(Into::into).collect();
    bluejay_parser::Error::into_graphql_errors(doc, errs).into_iter().map(|e| e.message.to_string()).collect()
}
fn resolves(sdl: &str) -> bool {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    SchemaDefinition::try_from(&dd).is_ok()
}
'''
for f in sys.argv[1:]:
    ns={}
    exec(open(f).read(),ns)
    for s in ns['SEEDS']:
        if 'ONLY' in os.environ and s['id'] not in os.environ['ONLY'].split(): continue
        d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
        w=os.environ.get('W','/tmp/w')
        if not os.path.isdir(w): sys.exit('run seed.sh first to make /tmp/w')
        subprocess.check_call(['git','-C',w,'checkout','-q','--','.'])
        for path,old,new in s['edits']:
            p=f'{w}/{path}'; t=open(p).read()
            if t.count(old)!=1: print(s['id'],path,'matches',t.count(old)); break
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.check_output(['git','-C',w,'diff']).decode()
        subprocess.check_call(['git','-C',w,'checkout','-q','--','.'])
        open(d+'/patch.diff','w').write(diff)
        tg=s.get('typegen')
        open(d+'/main.rs','w').write('' if tg else s.get('pre',PRE))
        open(d+'/main.rs','a').write(s['main'].lstrip('\n'))
        shutil.copy('/verif/tools/demo/'+('typegen.sh' if tg else 'demo.sh'),d+'/demo.sh')
        if 'refused' in s:
            open(d+'/refused.rs','w').write(s['refused'].lstrip('\n'))
            open(d+'/message','w').write(s['message']+'\n')
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        print('wrote',s['id'],len(diff))
