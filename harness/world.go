package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	tmtypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"

	"cosmossdk.io/core/header"
	"cosmossdk.io/log"
	"cosmossdk.io/math"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/server"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	crisistypes "github.com/cosmos/cosmos-sdk/x/crisis/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	marketmaptypes "github.com/skip-mev/connect/v2/x/marketmap/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	wasmkeeper "github.com/CosmWasm/wasmd/x/wasm/keeper"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	optypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	rstypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rwtypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	svtypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// Config is the part of the specification's constants the harness needs to
// build the initial state of the real application. The specification writes
// it (as JSON) next to the behaviours it generates.
type Config struct {
	Users      []string          `json:"users"`
	InitBal    [][3]interface{}  `json:"initbal"` // [user, denom, amount]
	UnbondTime int64             `json:"unbond"`
	DeactTime  int64             `json:"deact"`
	RestDenoms []string          `json:"restdenoms"`
	OpFee      [][2]interface{}  `json:"opfee"`
	SvcFee     [][2]interface{}  `json:"svcfee"`
	PlanFee    [][2]interface{}  `json:"planfee"`
	LVPct      int64             `json:"lvpct"` // insurance percentage
	LVMinters  []string          `json:"minters"`
	LVBurners  []string          `json:"burners"`
	LVTrusted  []string          `json:"trusted"`
	LVChannels []string          `json:"channels"`
	Assets     [][3]interface{}  `json:"assets"` // denom, ticker, exponent
	Prices     [][2]interface{}  `json:"prices"` // ticker, price
	Unit       int64             `json:"unit"`   // milliseconds per spec time unit
	Scale      string            `json:"scale"`  // multiplier applied to every amount
	Denoms     map[string]Denom  `json:"denoms"` // spec denom -> real denom, when it differs
	Rwd        []string          `json:"rwd"`    // reward denoms (compared up to rounding)
	Natives    []string          `json:"natives"`
	Locked     map[string]string `json:"locked"` // locked spec denom -> native spec denom
	Escrow     [][2]interface{}  `json:"escrow"` // coins of this chain that are abroad
	Expedited  []string          `json:"expedited"`
	Tol        float64           `json:"tol"`
	TolStep    float64           `json:"tolstep"`
	Prefix     []Action          `json:"prefix"`
	scale      math.Int
	unit       time.Duration
	Frac       int64 `json:"frac"` // how many units of the specification make one unit of a reward denom (0: 1)
}

func (c *Config) norm() {
	if c.Unit == 0 {
		c.Unit = 3600000
	}
	if c.Scale == "" {
		c.Scale = "1"
	}
	s, ok := math.NewIntFromString(c.Scale)
	if !ok {
		fatal("bad scale %q", c.Scale)
	}
	c.scale = s
	if c.Frac == 0 {
		c.Frac = 1
	}
	c.unit = time.Duration(c.Unit) * time.Millisecond
}

// units converts an amount of a reward denom in the specification to real coins.
func (c *Config) units(v float64) float64 {
	f, err := strconv.ParseFloat(c.Scale, 64)
	must(err)
	return v * f / float64(c.Frac)
}

// Denom says how a spec denom is realised.
type Denom struct {
	Base string `json:"base"` // base denom on the other chain
	Chan string `json:"chan"` // channel (of this chain) it arrives through; "" for a local denom
}

func (c *Config) real(d string) string {
	if n, ok := c.Locked[d]; ok {
		r, err := lvtypes.GetLockedRepresentationDenom(c.real(n))
		must(err)
		return r
	}
	if x, ok := c.Denoms[d]; ok && x.Chan != "" {
		return transfertypes.ParseDenomTrace(transfertypes.GetPrefixedDenom("transfer", x.Chan, x.Base)).IBCDenom()
	}
	return d
}

func (c *Config) allDenoms() []string {
	r := append([]string{}, c.Natives...)
	r = append(r, c.Rwd...)
	for l := range c.Locked {
		r = append(r, l)
	}
	sort.Strings(r)
	return r
}

var genesisTime = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

type World struct {
	app   *milkyway.MilkyWayApp
	cfg   *Config
	dir   string
	base  sdk.Context       // uncached context over the committed genesis state
	name  map[string]string // bech32 -> symbolic name (static part)
	addr  map[string]string // symbolic name -> bech32
	spec  map[string]string // real denom -> spec denom
	rwd   map[string]bool
	txCfg txEncCfg
	notes map[string]int64 // how often something was exercised
}

func (w *World) note(what string) { w.notes[what]++ }

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func userAddr(n string) sdk.AccAddress {
	b := make([]byte, 20)
	copy(b, []byte("verif-user-"+n))
	return sdk.AccAddress(b)
}

func num(v interface{}) int64 {
	switch x := v.(type) {
	case float64:
		return int64(x)
	case int64:
		return x
	case int:
		return int64(x)
	case json.Number:
		n, err := x.Int64()
		must(err)
		return n
	}
	panic(fmt.Sprintf("not a number: %v (%T)", v, v))
}

func (c *Config) coin(denom string, amt int64) sdk.Coin {
	x := c.scale.MulRaw(amt)
	for _, d := range c.Rwd {
		if d == denom {
			if !x.ModRaw(c.Frac).IsZero() {
				fatal("%d%s is not a whole amount", amt, denom)
			}
			x = x.QuoRaw(c.Frac)
		}
	}
	return sdk.Coin{Denom: c.real(denom), Amount: x}
}

func (c *Config) coins2(xs [][2]interface{}) sdk.Coins {
	cs := sdk.Coins{}
	for _, x := range xs {
		cs = append(cs, c.coin(x[0].(string), num(x[1])))
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Denom < cs[j].Denom })
	return cs
}

func newApp(dir string) *milkyway.MilkyWayApp {
	appOptions := make(simtestutil.AppOptionsMap, 0)
	appOptions[server.FlagInvCheckPeriod] = 0
	appOptions[server.FlagMinGasPrices] = "0umilk"
	return milkyway.NewMilkyWayApp(log.NewNopLogger(), dbm.NewMemDB(), nil, true, map[int64]bool{}, dir,
		oracleconfig.NewDefaultAppConfig(), appOptions, []wasmkeeper.Option{})
}

func NewWorld(cfg *Config) *World {
	cfg.norm()
	dir, err := os.MkdirTemp("", "verifconf-app")
	must(err)
	w := &World{cfg: cfg, dir: dir, name: map[string]string{}, addr: map[string]string{}, spec: map[string]string{}, rwd: map[string]bool{}, notes: map[string]int64{}}
	for _, d := range cfg.allDenoms() {
		w.spec[cfg.real(d)] = d
	}
	for _, d := range cfg.Rwd {
		w.rwd[d] = true
	}
	for _, xs := range [][]string{cfg.Users, cfg.LVMinters, cfg.LVBurners, cfg.LVTrusted} {
		for _, u := range xs {
			w.bind(u, userAddr(u).String())
		}
	}
	w.app = newApp(dir)
	cdc := w.app.AppCodec()
	w.txCfg = w.app.GetTxConfig()
	gs := w.app.ModuleBasics.DefaultGenesis(cdc)

	// accounts and balances
	var accs []authtypes.GenesisAccount
	var bals []banktypes.Balance
	total := sdk.NewCoins()
	byUser := map[string]sdk.Coins{}
	for _, x := range cfg.InitBal {
		u := x[0].(string)
		byUser[u] = byUser[u].Add(cfg.coin(x[1].(string), num(x[2])))
	}
	for _, u := range cfg.Users {
		a := userAddr(u)
		accs = append(accs, authtypes.NewBaseAccount(a, nil, 0, 0))
		if !byUser[u].Empty() {
			bals = append(bals, banktypes.Balance{Address: a.String(), Coins: byUser[u]})
			total = total.Add(byUser[u]...)
		}
	}
	if len(cfg.Escrow) > 0 {
		cs := cfg.coins2(cfg.Escrow)
		bals = append(bals, banktypes.Balance{Address: transfertypes.GetEscrowAddress("transfer", "channel-0").String(), Coins: cs})
		total = total.Add(cs...)
	}
	// one validator, self-bonded from a dedicated account
	vacc := userAddr("validator")
	accs = append(accs, authtypes.NewBaseAccount(vacc, nil, 0, 0))
	priv := ed25519.GenPrivKeyFromSecret([]byte("verif-validator"))
	tmpk, err := cryptocodec.ToCmtPubKeyInterface(priv.PubKey())
	must(err)
	val := tmtypes.NewValidator(tmpk, 1)
	pkAny, err := codectypes.NewAnyWithValue(priv.PubKey())
	must(err)
	bond := sdk.DefaultPowerReduction
	vals := []stakingtypes.Validator{{
		OperatorAddress: sdk.ValAddress(val.Address).String(), ConsensusPubkey: pkAny,
		Status: stakingtypes.Bonded, Tokens: bond, DelegatorShares: math.LegacyOneDec(),
		Commission:        stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
		MinSelfDelegation: math.OneInt(),
	}}
	dels := []stakingtypes.Delegation{stakingtypes.NewDelegation(vacc.String(), sdk.ValAddress(val.Address).String(), math.LegacyOneDec())}
	sp := stakingtypes.DefaultParams()
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, vals, dels))
	bals = append(bals, banktypes.Balance{Address: authtypes.NewModuleAddress(stakingtypes.BondedPoolName).String(), Coins: sdk.Coins{sdk.NewCoin(sp.BondDenom, bond)}})
	total = total.Add(sdk.NewCoin(sp.BondDenom, bond))
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultGenesisState().Params, bals, total, nil, nil))

	// no inflation: the only coin flows are the modelled ones
	var mint minttypes.GenesisState
	cdc.MustUnmarshalJSON(gs[minttypes.ModuleName], &mint)
	mint.Minter.Inflation = math.LegacyZeroDec()
	mint.Params.InflationMin, mint.Params.InflationMax, mint.Params.InflationRateChange = math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(&mint)

	// module params
	og := optypes.DefaultGenesis()
	og.Params.DeactivationTime = time.Duration(cfg.DeactTime) * cfg.unit
	og.Params.OperatorRegistrationFee = cfg.coins2(cfg.OpFee)
	gs[optypes.ModuleName] = cdc.MustMarshalJSON(og)
	sg := svtypes.DefaultGenesis()
	sg.Params.ServiceRegistrationFee = cfg.coins2(cfg.SvcFee)
	gs[svtypes.ModuleName] = cdc.MustMarshalJSON(sg)
	rg := rstypes.DefaultGenesis()
	rg.Params.UnbondingTime = time.Duration(cfg.UnbondTime) * cfg.unit
	for _, d := range cfg.RestDenoms {
		rg.Params.AllowedDenoms = append(rg.Params.AllowedDenoms, cfg.real(d))
	}
	gs[rstypes.ModuleName] = cdc.MustMarshalJSON(rg)
	wg := rwtypes.DefaultGenesis()
	wg.Params.RewardsPlanCreationFee = cfg.coins2(cfg.PlanFee)
	gs[rwtypes.ModuleName] = cdc.MustMarshalJSON(wg)
	lg := lvtypes.DefaultGenesisState()
	lg.Params = w.lvParams(cfg.LVPct, cfg.LVMinters, cfg.LVBurners, cfg.LVTrusted, cfg.LVChannels)
	gs[lvtypes.ModuleName] = cdc.MustMarshalJSON(lg)

	bz, err := json.Marshal(gs)
	must(err)
	_, err = w.app.InitChain(&abci.RequestInitChain{Time: genesisTime, ConsensusParams: &tmproto.ConsensusParams{
		Block:     &tmproto.BlockParams{MaxBytes: 200000, MaxGas: -1},
		Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
		Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{tmtypes.ABCIPubKeyTypeEd25519}},
	}, AppStateBytes: bz})
	must(err)
	_, err = w.app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: 1, Time: genesisTime, NextValidatorsHash: tmtypes.NewValidatorSet([]*tmtypes.Validator{val}).Hash()})
	must(err)
	_, err = w.app.Commit()
	must(err)

	base := w.app.NewUncachedContext(false, tmproto.Header{Height: 1, Time: genesisTime, ChainID: ""})
	w.base = w.at(base, 1, 0)
	for n, m := range map[string]string{"community": distrtypes.ModuleName, "rwd": rwtypes.RewardsPoolName, "lv": lvtypes.ModuleName, "gov": govtypes.ModuleName, "crisis": crisistypes.ModuleName} {
		w.bind(n, authtypes.NewModuleAddress(m).String())
	}
	for i := uint32(1); i <= 12; i++ {
		n := fmt.Sprint(i)
		w.bind("O"+n, optypes.GetOperatorAddress(i).String())
		w.bind("S"+n, svtypes.GetServiceAddress(i).String())
		w.bind("P"+n, poolstypes.GetPoolAddress(i).String())
		w.bind("plan"+n, rwtypes.GetRewardsPoolAddress(uint64(i)).String())
	}
	w.bind("esc", transfertypes.GetEscrowAddress("transfer", "channel-0").String())
	for _, c := range cfg.coins2(cfg.Escrow) {
		w.app.TransferKeeper.SetTotalEscrowForDenom(w.base, c)
	}
	w.seedPrices()
	return w
}

func (w *World) Close() { _ = w.app.Close(); _ = os.RemoveAll(w.dir) }

func (w *World) bind(n, a string) { w.name[a] = n; w.addr[n] = a }

func (w *World) lvParams(pct int64, minters, burners, trusted, channels []string) lvtypes.Params {
	conv := func(xs []string) (r []string) {
		for _, x := range xs {
			r = append(r, userAddr(x).String())
		}
		return
	}
	return lvtypes.NewParams(math.LegacyNewDec(pct), conv(burners), conv(minters), conv(trusted), channels)
}

// at returns ctx positioned in the block with the given height and abstract time.
func (w *World) at(ctx sdk.Context, height int64, now int64) sdk.Context {
	t := genesisTime.Add(time.Duration(now) * w.cfg.unit)
	h := ctx.BlockHeader()
	h.Height, h.Time = height, t
	ctx = ctx.WithBlockHeader(h).WithBlockHeight(height).WithBlockTime(t)
	return ctx.WithHeaderInfo(header.Info{Height: height, Time: t, ChainID: ctx.ChainID()})
}

func (w *World) seedPrices() {
	for _, p := range w.cfg.Prices {
		w.setPrice(w.base, p[0].(string), num(p[1]))
	}
	for _, p := range w.cfg.Assets {
		must(w.app.AssetsKeeper.SetAsset(w.base, assetstypes.NewAsset(w.cfg.real(p[0].(string)), p[1].(string), uint32(num(p[2])))))
	}
}

func (w *World) setPrice(ctx sdk.Context, ticker string, price int64) {
	mm := marketmaptypes.NewTicker(ticker, rwtypes.USDTicker, math.LegacyPrecision, 0, true)
	has, err := w.app.MarketMapKeeper.HasMarket(ctx, mm.String())
	must(err)
	if !has {
		must(w.app.MarketMapKeeper.CreateMarket(ctx, marketmaptypes.Market{Ticker: mm}))
	}
	must(w.app.OracleKeeper.SetPriceForCurrencyPair(ctx, connecttypes.NewCurrencyPair(ticker, rwtypes.USDTicker),
		oracletypes.QuotePrice{Price: math.NewIntFromBigInt(math.LegacyNewDec(price).BigInt()), BlockTimestamp: ctx.BlockTime(), BlockHeight: uint64(ctx.BlockHeight())}))
}
