import json,glob,sys
for f in sorted(glob.glob('/verif/build/out/%s/h*.json'%sys.argv[1])):
    j=json.load(open(f)); print(j['fn'],'total',j['total'],'check',j['check_time'],'branch',j['branch_time'],'search',j['search_time'],'q',j['check_queries'],j['branch_queries'],'terms',j['terms'],'paths',j['paths'])
    for k,c in j['checks'].items():
        if c['max']>3: print('   ',k,c)
