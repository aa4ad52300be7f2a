BT = 'engines/default/coll_btree.c'
make('list-setattr-partial', 'C13', 'a setattr with several attributes of which a later one is refused',
 'setattr on a list applies the maxcount that precedes a refused attribute',
 [('engines/default/coll_list.c', '''            if (attrp->maxcount > 0 && attrp->maxcount < info->ccnt) {
                return ENGINE_EBADVALUE;
            }''', '''            if (attrp->maxcount > 0 && attrp->maxcount < info->ccnt) {
                return ENGINE_EBADVALUE;
            }
            info->mcnt = attrp->maxcount;''')],
 '''
with Srv() as s:
    c = s.conn()
    c.x('lop create k 0 0 100\\r\\n')
    check('setattr', c.x('setattr k maxcount=7 overflowaction=smallest_trim\\r\\n'), 'ATTR_ERROR bad value\\r\\n')
    check('getattr', c.x('getattr k maxcount\\r\\n'), 'ATTR maxcount=100\\r\\nEND\\r\\n')
''')
make('set-sampling-remain', 'C07', 'sop get with a count below the size of a set large enough to have split hash chains (over a thousand members)',
 'sop get returns fewer members than asked for although the set has enough',
 [('engines/default/coll_set.c', '''            remain -= child_node->tot_elem_cnt;
''', '')],
 '''
with Srv() as s:
    c = s.conn()
    c.x('sop create k 0 0 20000\\r\\n')
    for i in range(6000): c.x('sop insert k %d\\r\\nm%d\\r\\n' % (len(str(i)) + 1, i))
    for _ in range(20):
        r = c.x('sop get k 1000\\r\\n').split('\\r\\n')
        check('count', (r[0], len(set(r[1:-2])), r[-2]), ('VALUE 0 1000', 1000, 'END'))
''')
make('append-exptime', 'C04', 'append or prepend (whose own expiry is ignored) to an item with an expiry, and waiting',
 'an item that was appended to loses its expiry',
 [('engines/default/items.c', '''                                          old_it->flags, old_it->exptime,''', '''                                          old_it->flags, it->exptime,''')],
 '''
with Srv() as s:
    c = s.conn()
    c.x('set k 0 2 1\\r\\na\\r\\n')
    c.x('append k 0 0 1\\r\\nb\\r\\n')
    time.sleep(4.2)
    check('get', c.x('get k\\r\\n'), 'END\\r\\n')
''')
