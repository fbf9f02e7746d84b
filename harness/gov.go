package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"cosmossdk.io/math"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	govv1beta1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1beta1"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
)

// GovSetup is the stake of the voters (see MWGov.tla).
type GovSetup struct {
	Rate map[string]int64            `json:"rate"` // validator -> coins of four shares
	Dele map[string]map[string]int64 `json:"dele"` // voter -> validator -> shares
}

type GovMsg struct {
	N  string   `json:"n"`
	F  string   `json:"f,omitempty"`
	U  string   `json:"u,omitempty"`
	X  bool     `json:"x,omitempty"`
	C  []string `json:"c,omitempty"`
	Ms []GovMsg `json:"ms,omitempty"`
}

type GovTx struct {
	Tx []GovMsg `json:"tx"`
	OK bool     `json:"ok"`
}

type GovWorld struct {
	*World
	keys  map[string]cryptotypes.PrivKey
	addrs map[string]sdk.AccAddress
	rnd   *rand.Rand
}

func (g *GovWorld) account(n string) sdk.AccAddress {
	if g.keys[n] == nil {
		g.keys[n] = secp256k1.GenPrivKeyFromSecret([]byte("verif-gov-" + n))
		g.addrs[n] = sdk.AccAddress(g.keys[n].PubKey().Address())
	}
	return g.addrs[n]
}

var govExtra = []string{"g1", "g2", "g3", "prop", "other"}

func newGovWorld(set *GovSetup) *GovWorld {
	w := NewWorld(&Config{Unit: 21600, Scale: "1", UnbondTime: 3, DeactTime: 2, LVPct: 50})
	g := &GovWorld{World: w, keys: map[string]cryptotypes.PrivKey{}, addrs: map[string]sdk.AccAddress{}, rnd: rand.New(rand.NewSource(1))}
	_, err := w.app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: 2, Time: genesisTime.Add(5 * time.Second)})
	must(err)
	for _, check := range []bool{true, false} {
		g.setup(w.app.NewContextLegacy(check, tmproto.Header{Height: 2, Time: genesisTime.Add(5 * time.Second)}), set)
	}
	return g
}

func (g *GovWorld) setup(ctx sdk.Context, set *GovSetup) {
	app := g.app
	var voters, vals []string
	for u := range set.Dele {
		voters = append(voters, u)
	}
	for v := range set.Rate {
		vals = append(vals, v)
	}
	sort.Strings(voters)
	sort.Strings(vals)
	fm, err := app.FeeMarketKeeper.GetParams(ctx)
	must(err)
	for _, u := range append(append([]string{}, govExtra...), voters...) {
		a := g.account(u)
		app.AccountKeeper.SetAccount(ctx, app.AccountKeeper.NewAccount(ctx, authtypes.NewBaseAccount(a, g.keys[u].PubKey(), 0, 0)))
		cs := sdk.NewCoins(sdk.NewCoin(fm.FeeDenom, math.NewInt(1_000_000_000_000_000)))
		must(app.BankKeeper.MintCoins(ctx, minttypes.ModuleName, cs))
		must(app.BankKeeper.SendCoinsFromModuleToAccount(ctx, minttypes.ModuleName, a, cs))
	}
	for _, v := range vals {
		priv := ed25519.GenPrivKeyFromSecret([]byte("verif-gov-val-" + v))
		pk, err := codectypes.NewAnyWithValue(priv.PubKey())
		must(err)
		total := math.LegacyZeroDec()
		addr := sdk.ValAddress(priv.PubKey().Address()).String()
		for _, u := range voters {
			x := set.Dele[u][v]
			if x == 0 {
				continue
			}
			total = total.Add(math.LegacyNewDec(x))
			must(app.StakingKeeper.SetDelegation(ctx, stakingtypes.NewDelegation(g.account(u).String(), addr, math.LegacyNewDec(x))))
		}
		if total.IsZero() {
			total = math.LegacyNewDec(4)
		}
		val := stakingtypes.Validator{
			OperatorAddress: addr, ConsensusPubkey: pk, Status: stakingtypes.Bonded, Jailed: v == "J",
			Tokens: total.MulInt64(set.Rate[v]).QuoInt64(4).TruncateInt(), DelegatorShares: total,
			Commission:        stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
			MinSelfDelegation: math.OneInt(),
		}
		if v == "J" {
			val.Status = stakingtypes.Unbonding
		}
		must(app.StakingKeeper.SetValidator(ctx, val))
		if v == "V" && set.Dele["unb"] != nil {
			must(app.StakingKeeper.SetUnbondingDelegation(ctx, stakingtypes.NewUnbondingDelegation(g.account("unb"), sdk.ValAddress(priv.PubKey().Address()), 1,
				genesisTime.Add(time.Hour), math.NewInt(5_000_000), 1, app.StakingKeeper.ValidatorAddressCodec(), app.AccountKeeper.AddressCodec())))
		}
	}
}

func (g *GovWorld) content(c string) sdk.Msg {
	auth := authtypes.NewModuleAddress(govtypes.ModuleName).String()
	switch c {
	case "upgrade":
		return &upgradetypes.MsgSoftwareUpgrade{Authority: auth, Plan: upgradetypes.Plan{Name: "v9", Height: 1000}}
	case "cancel":
		return &upgradetypes.MsgCancelUpgrade{Authority: auth}
	case "send":
		return &banktypes.MsgSend{FromAddress: auth, ToAddress: g.account("other").String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("umilk", 1))}
	case "text", "legacy":
		var ct govv1beta1.Content = govv1beta1.NewTextProposal("title", "description")
		if c == "legacy" {
			ct = &upgradetypes.SoftwareUpgradeProposal{Title: "title", Description: "description", Plan: upgradetypes.Plan{Name: "v9", Height: 1000}} //nolint:staticcheck
		}
		m, err := govv1.NewLegacyContent(ct, auth)
		must(err)
		return m
	case "exec":
		m := authz.NewMsgExec(authtypes.NewModuleAddress(govtypes.ModuleName), []sdk.Msg{g.content("upgrade")})
		return &m
	}
	fatal("content %q", c)
	return nil
}

// msg builds a message and returns who has to sign it.
func (g *GovWorld) govMsg(m GovMsg, depth int) (sdk.Msg, string) {
	switch m.N {
	case "vote":
		a := g.account(m.U)
		switch m.F {
		case "v1":
			return govv1.NewMsgVote(a, 1, govv1.OptionYes, ""), m.U
		case "v1w":
			return govv1.NewMsgVoteWeighted(a, 1, govv1.NewNonSplitVoteOption(govv1.OptionNo), ""), m.U
		case "beta":
			return govv1beta1.NewMsgVote(a, 1, govv1beta1.OptionYes), m.U
		case "betaw":
			return govv1beta1.NewMsgVoteWeighted(a, 1, govv1beta1.NewNonSplitVoteOption(govv1beta1.OptionNo)), m.U
		}
	case "prop":
		var ms []sdk.Msg
		for _, c := range m.C {
			ms = append(ms, g.content(c))
		}
		p, err := govv1.NewMsgSubmitProposal(ms, sdk.NewCoins(sdk.NewInt64Coin("umilk", 1)), g.account("prop").String(), "meta", "title", "summary", m.X)
		must(err)
		return p, "prop"
	case "other":
		a := g.account("other")
		return banktypes.NewMsgSend(a, a, sdk.NewCoins(sdk.NewInt64Coin("umilk", 1))), "other"
	case "exec":
		var ms []sdk.Msg
		for _, x := range m.Ms {
			y, _ := g.govMsg(x, depth+1)
			ms = append(ms, y)
		}
		n := govExtra[depth%3]
		e := authz.NewMsgExec(g.account(n), ms)
		return &e, n
	}
	fatal("message %+v", m)
	return nil, ""
}

// admitted tells whether the real ante handler lets the transaction in.
func (g *GovWorld) admitted(t GovTx, check bool) (bool, string) {
	var msgs []sdk.Msg
	var who []string
	seen := map[string]bool{}
	for _, m := range t.Tx {
		x, u := g.govMsg(m, 0)
		msgs = append(msgs, x)
		if !seen[u] {
			seen[u] = true
			who = append(who, u)
		}
	}
	ctx := g.app.NewContextLegacy(check, tmproto.Header{Height: 2, Time: genesisTime.Add(5 * time.Second)})
	seqOf := func() (nums, seqs []uint64) {
		for _, u := range who {
			a := g.app.AccountKeeper.GetAccount(ctx, g.account(u))
			nums, seqs = append(nums, a.GetAccountNumber()), append(seqs, a.GetSequence())
		}
		return
	}
	nums, seqs := seqOf()
	var privs []cryptotypes.PrivKey
	for _, u := range who {
		privs = append(privs, g.keys[u])
	}
	fm, err := g.app.FeeMarketKeeper.GetParams(ctx)
	must(err)
	tx, err := simtestutil.GenSignedMockTx(g.rnd, g.app.GetTxConfig(), msgs, sdk.NewCoins(sdk.NewInt64Coin(fm.FeeDenom, 5_000_000)), 2_000_000, "", nums, seqs, privs...)
	must(err)
	if check {
		_, _, err = g.app.SimCheck(g.txCfg.TxEncoder(), tx)
	} else {
		_, _, err = g.app.SimDeliver(g.txCfg.TxEncoder(), tx)
	}
	_, after := seqOf()
	msg := ""
	if err != nil {
		msg = trimErr(err.Error())
	}
	return after[0] > seqs[0], msg
}

func (r *Runner) gov(set *GovSetup, files []string, workers int) {
	var txs []GovTx
	for _, f := range files {
		scanLines(f, func(b []byte) {
			var t GovTx
			must(json.Unmarshal(b, &t))
			txs = append(txs, t)
		})
	}
	// the larger ones must not hide that a smaller one fails already
	sort.SliceStable(txs, func(i, j int) bool { return len(fmt.Sprint(txs[i])) < len(fmt.Sprint(txs[j])) })
	ch := make(chan GovTx, len(txs))
	for _, t := range txs {
		ch <- t
	}
	close(ch)
	r.st.Nodes = int64(len(txs))
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := newGovWorld(set)
			defer r.done(g.World)
			for t := range ch {
				if r.over() || len(r.st.Found) >= 5 {
					return
				}
				r.govTx(g, t)
			}
		}()
	}
	wg.Wait()
}

func (r *Runner) govTx(g *GovWorld, t GovTx) {
	for _, check := range []bool{true, false} {
		ok, msg := g.admitted(t, check)
		k := map[bool]string{true: "CheckTx", false: "FinalizeBlock"}[check]
		r.count(k, t.OK)
		r.st.mu.Lock()
		if !t.OK {
			r.st.Notes["rejected with: "+short(msg)]++
		}
		r.st.Traces++
		r.st.mu.Unlock()
		if ok != t.OK {
			b, _ := json.Marshal(t)
			r.report(&Divergence{Type: "outcome", Kind: "tx", Dir: map[bool]string{true: "accept", false: "reject"}[ok], Action: Action{"n": "tx", "mode": k}, Err: msg, SpecOK: t.OK, Want: b})
			return
		}
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[len(s)-60:]
	}
	return s
}
