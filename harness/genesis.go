package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	optypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	rstypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rwtypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	svtypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

var genesisModules = []string{svtypes.ModuleName, optypes.ModuleName, poolstypes.ModuleName, rstypes.ModuleName,
	assetstypes.ModuleName, rwtypes.ModuleName, lvtypes.ModuleName}

// manager returns the module manager of the application.
func (w *World) manager() *module.Manager {
	v := reflect.ValueOf(w.app).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*module.Manager)(nil)) {
			return (*module.Manager)(unsafe.Pointer(f.Pointer()))
		}
	}
	fatal("no module manager")
	return nil
}

func (w *World) exportAll(ctx sdk.Context) map[string]json.RawMessage {
	ctx, _ = ctx.CacheContext()
	r := map[string]json.RawMessage{}
	for _, n := range genesisModules {
		switch m := w.manager().Modules[n].(type) {
		case module.HasGenesis:
			r[n] = m.ExportGenesis(ctx, w.app.AppCodec())
		case module.HasABCIGenesis:
			r[n] = m.ExportGenesis(ctx, w.app.AppCodec())
		default:
			fatal("module %s has no genesis", n)
		}
	}
	return r
}

// importAll imports in the order in which the application does.
func (w *World) importAll(ctx sdk.Context, gs map[string]json.RawMessage) {
	mm := w.manager()
	n := 0
	for _, name := range mm.OrderInitGenesis {
		if gs[name] == nil {
			continue
		}
		n++
		switch m := mm.Modules[name].(type) {
		case module.HasGenesis:
			m.InitGenesis(ctx, w.app.AppCodec(), gs[name])
		case module.HasABCIGenesis:
			m.InitGenesis(ctx, w.app.AppCodec(), gs[name])
		}
	}
	if n != len(gs) {
		fatal("%d of %d modules initialised", n, len(gs))
	}
}

func (w *World) wipe(ctx sdk.Context) {
	for _, m := range genesisModules {
		st := ctx.KVStore(w.app.GetKey(m))
		var keys [][]byte
		it := st.Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			keys = append(keys, append([]byte{}, it.Key()...))
		}
		it.Close()
		for _, k := range keys {
			st.Delete(k)
		}
	}
}

// exportImport exports the state of the modules, imports it into empty stores
// and continues from there.
func (w *World) exportImport(s *Sim) (o Outcome) {
	cctx, write := s.ctx.CacheContext()
	func() {
		defer rescue(&o)
		gs := w.exportAll(cctx)
		for _, m := range genesisModules {
			vg, ok := w.app.ModuleBasics[m].(interface {
				ValidateGenesis(cdc codecJSON, c txEncCfg, bz json.RawMessage) error
			})
			if !ok {
				fatal("module %s has no ValidateGenesis", m)
			}
			if err := vg.ValidateGenesis(w.app.AppCodec(), w.txCfg, gs[m]); err != nil {
				o.Bad = fmt.Sprintf("the exported genesis of %s is not valid: %v", m, err)
				return
			}
		}
		w.wipe(cctx)
		w.importAll(cctx, gs)
		again := w.exportAll(cctx)
		for _, m := range genesisModules {
			if !bytes.Equal(gs[m], again[m]) {
				o.Bad = fmt.Sprintf("module %s exports a different state after the import:\n%s\n%s", m, gs[m], again[m])
				return
			}
		}
		o.OK = true
	}()
	if o.Panic && strings.Contains(o.Err, "insurance fund amount is too low") {
		o.Known = "G28-1"
	} else if o.Panic {
		o.Bad = "export or import failed: " + o.Err
	}
	if o.OK {
		write()
	}
	return o
}
