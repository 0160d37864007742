package main

import (
	"reflect"
	"sync"
	"unsafe"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
)

var guards = [][]byte{guardLo[:], guardHi[:]}

// DB wraps one open MoeingADS.
type DB struct {
	m       *moeingads.MoeingADS
	dir     string
	history bool
}

func openDB(dir string, history bool) *DB {
	m, err := moeingads.NewMoeingADS(dir, history, guards)
	must(err)
	return &DB{m: m, dir: dir, history: history}
}

func (d *DB) close() { d.m.Close() }

// field finds a struct field by type, whatever it is called.
func field(obj interface{}, want reflect.Type) (reflect.Value, bool) {
	v := reflect.ValueOf(obj).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
		}
	}
	return reflect.Value{}, false
}

func (d *DB) kvdb() indextree.IKVDB {
	f, ok := field(d.m, reflect.TypeOf((*indextree.IKVDB)(nil)).Elem())
	if !ok {
		return nil
	}
	return f.Interface().(indextree.IKVDB)
}

func (d *DB) meta() types.MetaDB {
	f, ok := field(d.m, reflect.TypeOf((*types.MetaDB)(nil)).Elem())
	if !ok {
		return nil
	}
	return f.Interface().(types.MetaDB)
}

func (d *DB) trees() (out []*datatree.Tree) {
	f, ok := field(d.m, reflect.TypeOf([types.ShardCount]types.DataTree{}))
	if !ok {
		return nil
	}
	for i := 0; i < f.Len(); i++ {
		t, ok := f.Index(i).Interface().(*datatree.Tree)
		if !ok {
			return nil
		}
		out = append(out, t)
	}
	return
}

// block runs one block of operations: prepare, BeginWrite, apply, EndWrite.
// par > 1 prepares from that many goroutines and applies shard-parallel.
func (d *DB) block(h int64, ops []Op, par int, prepOrder []int) {
	prep := func(o Op) {
		k := append([]byte{}, o.Key[:]...)
		switch o.Kind {
		case 'S':
			d.m.PrepareForUpdate(k)
		case 'D':
			d.m.PrepareForDeletion(k)
		case 'P':
			if len(o.Val) == 0 {
				d.m.PrepareForUpdate(k)
			} else {
				d.m.PrepareForDeletion(k)
			}
		}
	}
	app := func(o Op) {
		k := append([]byte{}, o.Key[:]...)
		switch o.Kind {
		case 'S':
			v := append([]byte{}, o.Val...)
			if len(v) == 0 && (int64(k[7])+h)%2 == 0 {
				v = nil // the same as empty
			}
			d.m.Set(k, v)
		case 'D':
			d.m.Delete(k)
		}
	}
	if prepOrder == nil {
		prepOrder = make([]int, len(ops))
		for i := range prepOrder {
			prepOrder[i] = i
		}
	}
	if par <= 1 {
		for _, i := range prepOrder {
			prep(ops[i])
		}
	} else {
		var wg sync.WaitGroup
		for w := 0; w < par; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for j := w; j < len(prepOrder); j += par {
					prep(ops[prepOrder[j]])
				}
			}(w)
		}
		wg.Wait()
	}
	d.m.BeginWrite(h)
	if par <= 1 {
		for _, o := range ops {
			app(o)
		}
	} else {
		var wg sync.WaitGroup
		for s := 0; s < shardCount; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				for _, o := range ops {
					if shardOf(o.Key) == s {
						app(o)
					}
				}
			}(s)
		}
		wg.Wait()
	}
	d.m.EndWrite()
}
