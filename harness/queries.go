package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	"cosmossdk.io/math"

	rstypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rwtypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"

	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
)

// querier asks the queries of the application, as a client would, and compares
// the answers with the objects of the state.
type querier struct {
	w   *World
	ctx sdk.Context
	bad string
	n   int64
}

type jm = map[string]interface{}

func (q *querier) fail(f string, a ...interface{}) {
	if q.bad == "" {
		q.bad = fmt.Sprintf(f, a...)
	}
}

// call runs a query at the level of the wire.
func (q *querier) call(method, req, resp string, args jm) (jm, error) {
	q.n++
	i := strings.Index(method, "/")
	mod, name := method[:i], method[i+1:]
	if req == "" {
		req = "Query" + name + "Request"
	}
	if resp == "" {
		resp = "Query" + name + "Response"
	}
	mk := func(n string) proto.Message {
		t := proto.MessageType("milkyway." + mod + ".v1." + n)
		if t == nil {
			fatal("no message %s", n)
		}
		return reflect.New(t.Elem()).Interface().(proto.Message)
	}
	in, out := mk(req), mk(resp)
	b, err := json.Marshal(args)
	must(err)
	must(q.w.app.AppCodec().UnmarshalJSON(b, in))
	wire, err := proto.Marshal(in)
	must(err)
	path := "/milkyway." + mod + ".v1.Query/" + name
	h := q.w.app.GRPCQueryRouter().Route(path)
	if h == nil {
		return nil, fmt.Errorf("the query is not routed")
	}
	r, err := h(q.ctx, &abci.RequestQuery{Data: wire, Path: path})
	if err != nil {
		return nil, err
	}
	must(q.w.app.AppCodec().Unmarshal(r.Value, out.(interface {
		proto.Message
		Reset()
		String() string
		ProtoMessage()
		Marshal() ([]byte, error)
		MarshalTo(data []byte) (n int, err error)
		MarshalToSizedBuffer(dAtA []byte) (int, error)
		Size() int
		Unmarshal(data []byte) error
	})))
	return q.m(out), nil
}

// m is an object as generic JSON.
func (q *querier) m(o proto.Message) jm {
	b, err := q.w.app.AppCodec().MarshalJSON(o)
	must(err)
	r := jm{}
	must(json.Unmarshal(b, &r))
	return r
}

func js(x interface{}) string {
	b, err := json.Marshal(x)
	must(err)
	return string(b)
}

// one compares the answer to a query about a single object; want == nil: there
// is no such object, and the query says so (with an error, or an empty answer).
func (q *querier) one(method, req, resp, field string, args jm, want interface{}) {
	if q.bad != "" {
		return
	}
	got, err := q.call(method, req, resp, args)
	if want == nil {
		if err == nil {
			q.fail("%s %s answers %s for something that does not exist", method, js(args), js(got))
		}
		return
	}
	if err != nil {
		q.fail("%s %s fails: %v, want %s", method, js(args), err, js(want))
		return
	}
	var x interface{} = got
	if field != "" {
		x = got[field]
	}
	if js(x) != js(want) {
		q.fail("%s %s answers %s, want %s", method, js(args), js(x), js(want))
	}
}

func strs(x interface{}) []string {
	r := []string{}
	if x == nil {
		return r
	}
	for _, y := range x.([]interface{}) {
		r = append(r, js(y))
	}
	return r
}

func reversed(xs []string) []string {
	r := []string{}
	for i := len(xs) - 1; i >= 0; i-- {
		r = append(r, xs[i])
	}
	return r
}

func sortedCopy(xs []string) []string {
	r := append([]string{}, xs...)
	sort.Strings(r)
	return r
}

// list compares the pages of a query with the objects that match it.
func (q *querier) list(method, req, resp, field string, args jm, want []string) {
	if q.bad != "" {
		return
	}
	ask := func(p jm) ([]string, jm, bool) {
		a := jm{}
		for k, v := range args {
			a[k] = v
		}
		if p != nil {
			a["pagination"] = p
		}
		got, err := q.call(method, req, resp, a)
		if err != nil {
			q.fail("%s %s fails: %v, want %s", method, js(a), err, js(want))
			return nil, nil, false
		}
		pg, _ := got["pagination"].(map[string]interface{})
		return strs(got[field]), pg, true
	}
	all, _, ok := ask(nil)
	if !ok {
		return
	}
	if js(sortedCopy(all)) != js(sortedCopy(want)) {
		q.fail("%s %s answers %s, want %s", method, js(args), js(all), js(want))
		return
	}
	for _, rev := range []bool{false, true} {
		exp := all
		if rev {
			exp = reversed(all)
		}
		for _, size := range []int{1, 2, 3, 100} {
			for _, byOffset := range []bool{false, true} {
				got := []string{}
				var key interface{}
				for n := 0; ; n++ {
					p := jm{"limit": fmt.Sprint(size), "reverse": rev}
					if byOffset {
						p["offset"] = fmt.Sprint(len(got))
						p["count_total"] = true
					} else if key != nil {
						p["key"] = key
					} else {
						p["count_total"] = true
					}
					items, pg, ok := ask(p)
					if !ok {
						return
					}
					if len(items) > size || n > 2*len(want)+20 {
						q.fail("%s %s: %d items in a page of %d, page %d", method, js(args), len(items), size, n)
						return
					}
					got = append(got, items...)
					if p["count_total"] != nil && fmt.Sprint(pg["total"]) != fmt.Sprint(len(want)) {
						q.fail("%s %s counts %v objects, there are %d", method, js(p), pg["total"], len(want))
						return
					}
					key = pg["next_key"]
					if key == nil || key == "" {
						break
					}
					if byOffset && len(items) == 0 {
						q.fail("%s %s: an empty page at offset %d that is not the last", method, js(args), len(got))
						return
					}
				}
				if js(got) != js(exp) {
					q.fail("%s %s by pages of %d (by offset: %v, reverse: %v) gives %s, want %s", method, js(args), size, byOffset, rev, js(got), js(exp))
					return
				}
			}
		}
	}
}

func (w *World) checkQueries(s Sim) string {
	ctx, _ := s.ctx.CacheContext()
	app := w.app
	q := &querier{w: w, ctx: ctx}
	before := w.exportAll(ctx)

	xctx, _ := ctx.CacheContext() // exporting uses up an identifier
	og := app.OperatorsKeeper.ExportGenesis(xctx)
	sg := app.ServicesKeeper.ExportGenesis(xctx)
	pg := app.PoolsKeeper.ExportGenesis(xctx)
	rg := app.RestakingKeeper.ExportGenesis(xctx)
	ag, err := app.AssetsKeeper.ExportGenesis(xctx)
	must(err)
	lg, err := app.LiquidVestingKeeper.ExportGenesis(xctx)
	must(err)
	wg, err := app.RewardsKeeper.ExportGenesis(xctx)
	must(err)

	var users []string
	for _, u := range w.cfg.Users {
		users = append(users, w.addr[u])
	}

	// ---- operators, services, pools
	ops, svs, pls := map[uint32]jm{}, map[uint32]jm{}, map[uint32]jm{}
	var opl, svl, pll []string
	for i := range og.Operators {
		o := q.m(&og.Operators[i])
		ops[og.Operators[i].ID] = o
		opl = append(opl, js(o))
	}
	for i := range sg.Services {
		o := q.m(&sg.Services[i])
		svs[sg.Services[i].ID] = o
		svl = append(svl, js(o))
	}
	denoms := map[string]uint32{}
	for i := range pg.Pools {
		o := q.m(&pg.Pools[i])
		pls[pg.Pools[i].ID] = o
		denoms[pg.Pools[i].Denom] = pg.Pools[i].ID
		pll = append(pll, js(o))
	}
	get := func(m map[uint32]jm, i uint32) interface{} {
		if o, ok := m[i]; ok {
			return o
		}
		return nil
	}
	maxOp, maxSv, maxPl := og.NextOperatorID, sg.NextServiceID, pg.NextPoolID
	q.list("operators/Operators", "", "", "operators", nil, opl)
	q.list("services/Services", "", "", "services", nil, svl)
	q.list("pools/Pools", "", "", "pools", nil, pll)
	q.one("operators/Params", "", "", "params", nil, q.m(&og.Params))
	q.one("services/Params", "", "", "params", nil, q.m(&sg.Params))
	q.one("restaking/Params", "", "", "params", nil, q.m(&rg.Params))
	q.one("rewards/Params", "", "", "params", nil, q.m(&wg.Params))
	q.one("liquidvesting/Params", "", "", "params", nil, q.m(&lg.Params))
	opPar, svPar := map[uint32]interface{}{}, map[uint32]interface{}{}
	for i := range og.OperatorsParams {
		opPar[og.OperatorsParams[i].OperatorID] = q.m(&og.OperatorsParams[i].Params)
	}
	for i := range sg.ServicesParams {
		svPar[sg.ServicesParams[i].ServiceID] = q.m(&sg.ServicesParams[i].Params)
	}
	for i := uint32(1); i <= maxOp; i++ {
		a := jm{"operator_id": i}
		q.one("operators/Operator", "", "", "operator", a, get(ops, i))
		if ops[i] == nil {
			q.one("operators/OperatorParams", "", "", "operator_params", a, nil)
		} else if opPar[i] != nil {
			q.one("operators/OperatorParams", "", "", "operator_params", a, opPar[i])
		}
	}
	for i := uint32(1); i <= maxSv; i++ {
		a := jm{"service_id": i}
		q.one("services/Service", "", "", "service", a, get(svs, i))
		if svs[i] == nil {
			q.one("services/ServiceParams", "", "", "service_params", a, nil)
		} else if svPar[i] != nil {
			q.one("services/ServiceParams", "", "", "service_params", a, svPar[i])
		}
	}
	for i := uint32(1); i <= maxPl; i++ {
		q.one("pools/PoolByID", "QueryPoolByIdRequest", "QueryPoolResponse", "pool", jm{"pool_id": i}, get(pls, i))
	}
	for _, d := range w.cfg.allDenoms() {
		d = w.cfg.real(d)
		q.one("pools/PoolByDenom", "QueryPoolByDenomRequest", "QueryPoolResponse", "pool", jm{"denom": d}, get(pls, denoms[d]))
	}

	// ---- membership
	joined := map[uint32][]string{}
	joins := map[uint32][]uint32{} // operators that joined a service
	for _, x := range rg.OperatorsJoinedServices {
		for _, i := range x.ServiceIDs {
			joined[x.OperatorID] = append(joined[x.OperatorID], fmt.Sprint(i))
			joins[i] = append(joins[i], x.OperatorID)
		}
	}
	allowed := map[uint32][]string{}
	for _, x := range rg.ServicesAllowedOperators {
		for _, i := range x.OperatorIDs {
			allowed[x.ServiceID] = append(allowed[x.ServiceID], fmt.Sprint(i))
		}
	}
	securing := map[uint32][]string{}
	for _, x := range rg.ServicesSecuringPools {
		for _, i := range x.PoolIDs {
			securing[x.ServiceID] = append(securing[x.ServiceID], fmt.Sprint(i))
		}
	}
	for i := uint32(1); i <= maxOp; i++ {
		if ops[i] != nil {
			q.list("restaking/OperatorJoinedServices", "", "", "service_ids", jm{"operator_id": i}, joined[i])
		}
	}
	for i := uint32(1); i <= maxSv; i++ {
		a := jm{"service_id": i}
		if svs[i] == nil {
			q.one("restaking/ServiceOperators", "", "", "", a, nil)
			continue
		}
		q.list("restaking/ServiceAllowedOperators", "", "", "operator_ids", a, allowed[i])
		q.list("restaking/ServiceSecuringPools", "", "", "pool_ids", a, securing[i])
		var el []string
		for _, o := range joins[i] {
			ok := len(allowed[i]) == 0
			for _, x := range allowed[i] {
				ok = ok || x == fmt.Sprint(o)
			}
			if ok && ops[o] != nil {
				el = append(el, js(ops[o]))
			}
		}
		q.list("restaking/ServiceOperators", "", "", "operators", a, el)
	}

	// ---- stakes
	type kind struct {
		ty    rstypes.DelegationType
		name  string
		id    string
		obj   string
		max   uint32
		there map[uint32]jm
	}
	kinds := []kind{
		{rstypes.DELEGATION_TYPE_POOL, "Pool", "pool_id", "pool", maxPl, pls},
		{rstypes.DELEGATION_TYPE_OPERATOR, "Operator", "operator_id", "operator", maxOp, ops},
		{rstypes.DELEGATION_TYPE_SERVICE, "Service", "service_id", "service", maxSv, svs},
	}
	for _, k := range kinds {
		if q.bad != "" {
			break
		}
		del, ubd := map[string]jm{}, map[string]jm{}
		byT, byU, objs := map[uint32][]string{}, map[string][]string{}, map[string][]string{}
		uT, uU := map[uint32][]string{}, map[string][]string{}
		for _, d := range rg.Delegations {
			if d.Type != k.ty {
				continue
			}
			o := q.m(&rstypes.DelegationResponse{Delegation: d, Balance: sharesCoins(d)})
			del[fmt.Sprintf("%d|%s", d.TargetID, d.UserAddress)] = o
			byT[d.TargetID] = append(byT[d.TargetID], js(o))
			byU[d.UserAddress] = append(byU[d.UserAddress], js(o))
			objs[d.UserAddress] = append(objs[d.UserAddress], js(k.there[d.TargetID]))
		}
		for i := range rg.UnbondingDelegations {
			d := rg.UnbondingDelegations[i]
			if d.Type != k.ty {
				continue
			}
			o := q.m(&d)
			ubd[fmt.Sprintf("%d|%s", d.TargetID, d.DelegatorAddress)] = o
			uT[d.TargetID] = append(uT[d.TargetID], js(o))
			uU[d.DelegatorAddress] = append(uU[d.DelegatorAddress], js(o))
		}
		for i := uint32(1); i <= k.max; i++ {
			a := jm{k.id: i}
			q.list("restaking/"+k.name+"Delegations", "", "", "delegations", a, byT[i])
			q.list("restaking/"+k.name+"UnbondingDelegations", "", "", "unbonding_delegations", a, uT[i])
			for _, u := range users {
				a := jm{k.id: i, "delegator_address": u}
				key := fmt.Sprintf("%d|%s", i, u)
				var d, x, o interface{}
				if del[key] != nil {
					d, o = del[key], k.there[i]
				}
				if ubd[key] != nil {
					x = ubd[key]
				}
				q.one("restaking/"+k.name+"Delegation", "", "", "delegation", a, d)
				q.one("restaking/"+k.name+"UnbondingDelegation", "", "", "unbonding_delegation", a, x)
				q.one("restaking/Delegator"+k.name, "", "", k.obj, a, o)
			}
		}
		for _, u := range users {
			a := jm{"delegator_address": u}
			q.list("restaking/Delegator"+k.name+"Delegations", "", "", "delegations", a, byU[u])
			q.list("restaking/Delegator"+k.name+"UnbondingDelegations", "", "", "unbonding_delegations", a, uU[u])
			q.list("restaking/Delegator"+k.name+"s", "", "", k.obj+"s", a, objs[u])
		}
	}
	prefs := map[string]rstypes.UserPreferences{}
	for _, x := range rg.UsersPreferences {
		prefs[x.UserAddress] = x.Preferences
	}
	for _, u := range users {
		p, ok := prefs[u]
		if !ok {
			p = rstypes.DefaultUserPreferences()
		}
		q.one("restaking/UserPreferences", "", "", "preferences", jm{"user_address": u}, q.m(&p))
	}

	// ---- rewards
	var pll2 []string
	for i := range wg.RewardsPlans {
		o := q.m(&wg.RewardsPlans[i])
		pll2 = append(pll2, js(o))
		q.one("rewards/RewardsPlan", "", "", "rewards_plan", jm{"plan_id": fmt.Sprint(wg.RewardsPlans[i].ID)}, o)
	}
	q.list("rewards/RewardsPlans", "", "", "rewards_plans", nil, pll2)
	q.one("rewards/RewardsPlan", "", "", "rewards_plan", jm{"plan_id": fmt.Sprint(wg.NextRewardsPlanID)}, nil)
	total := map[string]rwtypes.DecPools{}
	parts := map[string][]string{}
	for n, k := range kinds {
		if q.bad != "" {
			break
		}
		rec := []rwtypes.DelegationTypeRecords{wg.PoolsRecords, wg.OperatorsRecords, wg.ServicesRecords}[n]
		out := map[uint32]rwtypes.OutstandingRewards{}
		for _, x := range rec.OutstandingRewards {
			out[x.DelegationTargetID] = rwtypes.OutstandingRewards{Rewards: x.OutstandingRewards}
		}
		for i := uint32(1); i <= k.max; i++ {
			a := jm{k.id: i}
			if k.there[i] == nil {
				q.one("rewards/"+k.name+"OutstandingRewards", "", "", "rewards", a, nil)
				continue
			}
			x := out[i]
			q.one("rewards/"+k.name+"OutstandingRewards", "", "", "rewards", a, q.m(&x))
		}
		for _, d := range rg.Delegations {
			if d.Type != k.ty || q.bad != "" {
				continue
			}
			c, _ := ctx.CacheContext()
			acc := sdk.MustAccAddressFromBech32(d.UserAddress)
			r, err := app.RewardsKeeper.GetDelegationRewards(c, acc, d.Type, d.TargetID)
			if err != nil {
				q.fail("the rewards of %s from %s cannot be computed: %v", w.nm(d.UserAddress), tname(d.Type, d.TargetID), err)
				break
			}
			one := rwtypes.NewDelegationDelegatorReward(d.Type, d.TargetID, r)
			total[d.UserAddress] = total[d.UserAddress].Add(r...)
			parts[d.UserAddress] = append(parts[d.UserAddress], js(q.m(&one)))
			q.one("rewards/"+k.name+"DelegationRewards", "", "", "rewards", jm{k.id: d.TargetID, "delegator_address": d.UserAddress}, q.m(&one)["reward"])
		}
	}
	com := map[uint32]rwtypes.AccumulatedCommission{}
	for _, x := range wg.OperatorAccumulatedCommissions {
		com[x.OperatorID] = x.Accumulated
	}
	for i := uint32(1); i <= maxOp; i++ {
		if ops[i] != nil {
			x := com[i]
			q.one("rewards/OperatorCommission", "", "", "commission", jm{"operator_id": i}, q.m(&x))
		}
	}
	wd := map[string]string{}
	for _, x := range wg.DelegatorWithdrawInfos {
		wd[x.DelegatorAddress] = x.WithdrawAddress
	}
	for _, u := range users {
		if q.bad != "" {
			break
		}
		a := jm{"delegator_address": u}
		to := u
		if wd[u] != "" {
			to = wd[u]
		}
		q.one("rewards/DelegatorWithdrawAddress", "", "", "withdraw_address", a, to)
		got, err := q.call("rewards/DelegatorTotalRewards", "", "", a)
		if err != nil {
			q.fail("rewards/DelegatorTotalRewards %s fails: %v", u, err)
			break
		}
		t := q.m(&rwtypes.QueryDelegatorTotalRewardsResponse{Total: total[u]})
		if js(sortedCopy(strs(got["rewards"]))) != js(sortedCopy(parts[u])) || js(got["total"]) != js(t["total"]) {
			q.fail("rewards/DelegatorTotalRewards %s answers %s, want %s and %s", u, js(got), js(parts[u]), js(t["total"]))
		}
	}

	// ---- assets
	var al []string
	byTicker := map[string][]string{}
	tickers := map[string]bool{"NONE": true}
	for _, p := range w.cfg.Assets {
		tickers[p[1].(string)] = true
	}
	for _, p := range w.cfg.Prices {
		tickers[p[0].(string)] = true
	}
	assets := map[string]interface{}{}
	for i := range ag.Assets {
		o := q.m(&ag.Assets[i])
		al = append(al, js(o))
		byTicker[ag.Assets[i].Ticker] = append(byTicker[ag.Assets[i].Ticker], js(o))
		tickers[ag.Assets[i].Ticker] = true
		assets[ag.Assets[i].Denom] = o
	}
	q.list("assets/Assets", "", "", "assets", nil, al)
	for t := range tickers {
		q.list("assets/Assets", "", "", "assets", jm{"ticker": t}, byTicker[t])
	}
	for _, d := range w.cfg.allDenoms() {
		d = w.cfg.real(d)
		q.one("assets/Asset", "", "", "asset", jm{"denom": d}, assets[d])
	}

	// ---- insurance
	active := map[string]sdk.Coins{} // locked coins restaked or unbonding
	isLocked := map[string]string{}
	for l, n := range w.cfg.Locked {
		isLocked[w.cfg.real(l)] = w.cfg.real(n)
	}
	add := func(u string, cs sdk.Coins) {
		for _, c := range cs {
			if isLocked[c.Denom] != "" {
				active[u] = active[u].Add(c)
			}
		}
	}
	for _, d := range rg.Delegations {
		add(d.UserAddress, sharesCoins(d))
	}
	for _, d := range rg.UnbondingDelegations {
		for _, e := range d.Entries {
			add(d.DelegatorAddress, e.Balance)
		}
	}
	fund := map[string]sdk.Coins{}
	sum := sdk.Coins{}
	pct := lg.Params.InsurancePercentage
	used := func(u string) sdk.Coins {
		r := sdk.Coins{}
		for _, c := range active[u] {
			n := isLocked[c.Denom]
			r = r.Add(sdk.NewCoin(n, math.MinInt(pct.MulInt(c.Amount).QuoInt64(100).Ceil().TruncateInt(), fund[u].AmountOf(n))))
		}
		return r
	}
	for _, x := range lg.UserInsuranceFunds {
		fund[x.UserAddress] = x.Balance
		sum = sum.Add(x.Balance...)
	}
	var fl []string
	for _, x := range lg.UserInsuranceFunds {
		fl = append(fl, js(q.m(&lvtypes.UserInsuranceFundData{UserAddress: x.UserAddress, Balance: x.Balance, Used: used(x.UserAddress)})))
	}
	q.list("liquidvesting/UserInsuranceFunds", "", "", "insurance_funds", nil, fl)
	for _, u := range users {
		q.one("liquidvesting/UserInsuranceFund", "", "", "", jm{"user_address": u}, q.m(&lvtypes.QueryUserInsuranceFundResponse{Balance: fund[u], Used: used(u)}))
		r := sdk.Coins{}
		for _, c := range fund[u] {
			for l, n := range isLocked {
				if n == c.Denom {
					r = r.Add(sdk.NewCoin(l, math.LegacyNewDecFromInt(c.Amount).MulInt64(100).QuoTruncate(pct).TruncateInt()))
				}
			}
		}
		if len(w.cfg.Locked) > 0 {
			q.one("liquidvesting/UserRestakableAssets", "", "", "amount", jm{"user_address": u}, q.m(&lvtypes.QueryUserRestakableAssetsResponse{Amount: r})["amount"])
		}
	}
	held := app.BankKeeper.GetAllBalances(ctx, sdk.MustAccAddressFromBech32(app.LiquidVestingKeeper.ModuleAddress))
	q.one("liquidvesting/InsuranceFund", "", "", "amount", nil, q.m(&lvtypes.QueryInsuranceFundResponse{Amount: held})["amount"])
	if q.bad == "" && !held.IsAllGTE(sum) {
		q.fail("the insurance fund holds %s, the deposits are %s", held, sum)
	}

	after := w.exportAll(ctx)
	for _, m := range genesisModules {
		if js(before[m]) != js(after[m]) {
			q.fail("the queries changed the state of %s:\n%s\n%s", m, before[m], after[m])
		}
	}
	return q.bad
}
