make('bop-inplace', 'C18', 'a client whose bop get reply is still being sent while another client updates the same elements with values of the same length',
 'bop update overwrites an element in place although a reader still refers to it: the reader sees half of the update',
 [('engines/default/coll_btree.c', 'if (elem->refcount == 0 && (elem->neflag+elem->nbytes) == (new_neflag+new_nbytes)) {', 'if ((elem->neflag+elem->nbytes) == (new_neflag+new_nbytes)) {')],
 '''
with Srv(mem=512) as s:
    a = s.conn(); b = s.conn()
    N = 3000
    b.x('bop create k 0 0 5000\\r\\n')
    for i in range(N): b.x('bop insert k %d 4000\\r\\n%s\\r\\n' % (i, 'a' * 4000))
    a.s.sendall(b'bop get k 0..5000\\r\\nversion\\r\\n')
    time.sleep(1)
    for i in range(N): check('update', b.x('bop update k %d 4000\\r\\n%s\\r\\n' % (i, 'b' * 4000)), 'UPDATED\\r\\n')
    r = a.x('')
    check('elements', (r.count('a' * 4000), r.count('b' * 4000)), (N, 0))
''')
make('incr-two-holds', 'C18', 'two clients incrementing the same key at the same moment',
 'incr computes the new number under one hold of the cache lock and stores it under another: of two simultaneous increments one is lost',
 [('engines/default/items.c', """            ret = do_add_delta(it, increment, delta, cas, result, cookie);
        }
        do_item_release(it);
""", """            uint64_t value;
            const char *ptr = item_get_data(it);
            if (it->refcount == 1 && safe_strtoull(ptr, &value) && isdigit((unsigned char)ptr[0])) {
                /* the plain case: do the arithmetic without holding up others */
                do_item_release(it);
                UNLOCK_CACHE();
                char buffer[32];
                value = increment ? value + delta : (delta > value ? 0 : value - delta);
                int len = snprintf(buffer, sizeof(buffer), "%"PRIu64"\\r\\n", value);
                LOCK_CACHE();
                it = do_item_get(key, nkey, DONT_UPDATE);
                if (it == NULL) {
                    ret = ENGINE_KEY_ENOENT;
                    goto out;
                }
                hash_item *new_it = IS_COLL_ITEM(it) ? NULL : do_item_alloc(key, nkey, it->flags, it->exptime, len, cookie);
                if (new_it == NULL) {
                    ret = IS_COLL_ITEM(it) ? ENGINE_EBADTYPE : ENGINE_ENOMEM;
                } else {
                    memcpy(item_get_data(new_it), buffer, len);
                    do_item_replace(it, new_it);
                    *cas = item_get_cas(new_it);
                    *result = value;
                    do_item_release(new_it);
                    ret = ENGINE_SUCCESS;
                }
            } else {
                ret = do_add_delta(it, increment, delta, cas, result, cookie);
            }
        }
        do_item_release(it);
"""), ('engines/default/items.c', """            ret = ENGINE_KEY_ENOENT;
        }
    }
    UNLOCK_CACHE();
""", """            ret = ENGINE_KEY_ENOENT;
        }
    }
out:
    UNLOCK_CACHE();
""", 1)],
 '''
import threading
with Srv() as s:
    c = s.conn(); c.x('set n 0 0 1\\r\\n0\\r\\n')
    def work():
        c = s.conn()
        for _ in range(200): c.x('incr n 1\\r\\n' * 200)
    for _ in range(3):
        ts = [threading.Thread(target=work) for _ in range(4)]
        [t.start() for t in ts]; [t.join() for t in ts]
    check('sum', c.x('get n\\r\\n').split('\\r\\n')[1], str(3 * 4 * 200 * 200))
''')
