package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

// Ind describes one indicator of the library: how to construct it and which
// parameter sets the explorations use.  Everything else is done by reflection
// on the public API, so that the checks depend on what it returns only.
type Ind struct {
	Name  string
	Pkg   string
	Def   []float64   // documented default parameters
	Alt   [][]float64 // further parameter sets for long histories
	Tiny  [][]float64 // parameter sets for exhaustive short histories
	New   func(it *klines.Item, p []float64) any
	NewD  func(it *klines.Item) any
	NewO  func(it *klines.Item, p []float64) (any, []any) // column constructor; the columns it was given
	Side  bool
	Heavy int // relative cost of one evaluation (0: normal)
}

func i(x float64) int { return int(x) }

func p1(vals ...float64) [][]float64 {
	var r [][]float64
	for _, v := range vals {
		r = append(r, []float64{v})
	}
	return r
}

func pn(rows ...[]float64) [][]float64 { return rows }

func f(v ...float64) []float64 { return v }

var none = [][]float64{{}}

var registry = []*Ind{
	{Name: "Sma", Pkg: "trend", Def: f(9), Alt: p1(1, 2, 5, 20, 64, 100, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return trend.NewSma(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultSma(it) }},
	{Name: "Ma", Pkg: "trend", Def: f(20), Alt: p1(1, 2, 5, 14, 64, 100, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return trend.NewMa(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultMa(it) }},
	{Name: "Ema", Pkg: "trend", Def: f(5), Alt: p1(1, 2, 12, 26, 100, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return trend.NewEma(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultEma(it) }},
	{Name: "Dema", Pkg: "trend", Def: f(20), Alt: p1(1, 2, 5, 12, 100), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return trend.NewDema(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultDema(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewDemaOHLC(o, i(p[0])), []any{o}
		}},
	{Name: "Rma", Pkg: "trend", Def: f(13), Alt: p1(1, 2, 5, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return trend.NewRma(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultRma(it) }},
	{Name: "Vwma", Pkg: "volume", Def: f(5), Alt: p1(1, 2, 14, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return volume.NewVwma(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultVwma(it) }},
	{Name: "EMAVegas", Pkg: "trend", Def: f(12, 144, 169, 575, 676), Alt: pn(f(1, 2, 3, 5, 8), f(3, 5, 6, 12, 14), f(2, 12, 13, 30, 40)), Tiny: pn(f(1, 1, 2, 3, 2), f(2, 1, 3, 2, 5)), Side: true,
		New: func(it *klines.Item, p []float64) any {
			return trend.NewEMAVegas(it, i(p[0]), i(p[1]), i(p[2]), i(p[3]), i(p[4]))
		},
		NewD: func(it *klines.Item) any { return trend.NewDefaultEMAVegas(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewEMAVegasOHLC(o, i(p[0]), i(p[1]), i(p[2]), i(p[3]), i(p[4])), []any{o}
		}},
	{Name: "TraderXO", Pkg: "trend", Def: f(12, 25), Alt: pn(f(1, 2), f(2, 5), f(5, 2), f(5, 5), f(9, 60)), Tiny: pn(f(1, 2), f(2, 3), f(3, 1)), Side: true,
		New:  func(it *klines.Item, p []float64) any { return trend.NewTraderXO(it, i(p[0]), i(p[1])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultTraderXO(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewTraderXOOHLC(o, i(p[0]), i(p[1])), []any{o}
		}},
	{Name: "Macd", Pkg: "trend", Def: f(12, 9, 26), Alt: pn(f(1, 1, 2), f(3, 2, 6), f(6, 5, 13), f(26, 9, 12)), Tiny: pn(f(1, 2, 3), f(2, 2, 3), f(3, 1, 1)), Side: true,
		New:  func(it *klines.Item, p []float64) any { return trend.NewMacd(it, i(p[0]), i(p[1]), i(p[2])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultMacd(it) }},
	{Name: "Rsi", Pkg: "trend", Def: f(14), Alt: p1(1, 2, 3, 6, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return trend.NewRsi(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultRsi(it) }},
	{Name: "StochRsi", Pkg: "trend", Def: f(3, 3, 14, 14), Alt: pn(f(1, 1, 2, 2), f(2, 3, 5, 4), f(3, 1, 7, 20), f(5, 5, 3, 1)), Tiny: pn(f(1, 1, 2, 2), f(2, 1, 2, 3), f(1, 2, 3, 1)), Side: true,
		New: func(it *klines.Item, p []float64) any {
			return trend.NewStochRsi(it, i(p[0]), i(p[1]), i(p[2]), i(p[3]))
		},
		NewD: func(it *klines.Item) any { return trend.NewDefaultStochRsi(it) }},
	{Name: "Kdj", Pkg: "trend", Def: f(9), Alt: p1(1, 2, 5, 14, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return trend.NewKdj(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultKdj(it) }},
	{Name: "Cci", Pkg: "trend", Def: f(20, 20), Alt: pn(f(2, 2), f(5, 3), f(3, 5), f(14, 14), f(50, 20), f(1, 4)), Tiny: pn(f(2, 2), f(1, 2), f(3, 2), f(2, 3), f(7, 7)), Side: true,
		New:  func(it *klines.Item, p []float64) any { return trend.NewCci(it, i(p[0]), i(p[1])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultCci(it) }},
	{Name: "AiCoinCCI", Pkg: "trend", Def: f(20), Alt: p1(1, 2, 3, 5, 14, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return trend.NewAiCoinCCI(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultAiCoinCCI(it) }},
	{Name: "Atr", Pkg: "trend", Def: f(14), Alt: p1(1, 2, 5, 22, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return trend.NewAtr(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultAtr(it) }},
	{Name: "Boll", Pkg: "channel", Def: f(20, 2), Alt: pn(f(1, 1), f(2, 2), f(5, 1), f(14, 3), f(50, 2), f(1000, 2)), Tiny: pn(f(1, 1), f(2, 2), f(3, 1), f(7, 2)), Side: true,
		New:  func(it *klines.Item, p []float64) any { return channel.NewBoll(it, i(p[0]), i(p[1])) },
		NewD: func(it *klines.Item) any { return channel.NewDefaultBoll(it) }},
	{Name: "KeltnerChannel", Pkg: "channel", Def: f(20), Alt: p1(1, 2, 5, 14, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return channel.NewKeltnerChannel(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return channel.NewDefaultKeltnerChannel(it) }},
	{Name: "DonchianChannel", Pkg: "channel", Def: f(20), Alt: p1(1, 2, 5, 14, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return channel.NewDonchianChannel(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return channel.NewDefaultDonchianChannel(it) }},
	{Name: "UlcerIndex", Pkg: "channel", Def: f(14), Alt: p1(1, 2, 5, 20, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return channel.NewUlcerIndex(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return channel.NewDefaultUlcerIndex(it) }},
	{Name: "AccumulationDistribution", Pkg: "volume", Def: f(), Tiny: none,
		New:  func(it *klines.Item, p []float64) any { return volume.NewAccumulationDistribution(it) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultAccumulationDistribution(it) }},
	{Name: "ChaikinMoneyFlow", Pkg: "volume", Def: f(20), Alt: p1(1, 2, 5, 14, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return volume.NewChaikinMoneyFlow(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultChaikinMoneyFlow(it) }},
	{Name: "EaseOfMovement", Pkg: "volume", Def: f(14), Alt: p1(1, 2, 5, 20, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return volume.NewEaseOfMovement(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultEaseOfMovement(it) }},
	{Name: "ForceIndex", Pkg: "volume", Def: f(13), Alt: p1(1, 2, 5, 20, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return volume.NewForceIndex(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultForceIndex(it) }},
	{Name: "MoneyFlowIndex", Pkg: "volume", Def: f(14), Alt: p1(1, 2, 3, 5, 20, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return volume.NewMoneyFlowIndex(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultMoneyFlowIndex(it) }},
	{Name: "NegativeVolumeIndex", Pkg: "volume", Def: f(), Tiny: none,
		New:  func(it *klines.Item, p []float64) any { return volume.NewNegativeVolumeIndex(it) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultNegativeVolumeIndex(it) }},
	{Name: "Obv", Pkg: "volume", Def: f(), Tiny: none,
		New: func(it *klines.Item, p []float64) any { return volume.NewObv(it) }},
	{Name: "VolumePriceTrend", Pkg: "volume", Def: f(14), Alt: p1(1, 2, 5, 20, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return volume.NewVolumePriceTrend(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return volume.NewDefaultVolumePriceTrend(it) }},
	{Name: "AbsolutePriceOscillator", Pkg: "oscillator", Def: f(), Tiny: none, Side: true,
		New: func(it *klines.Item, p []float64) any {
			return oscillator.NewAbsolutePriceOscillator(it)
		}},
	{Name: "AwesomeOscillator", Pkg: "oscillator", Def: f(), Tiny: none, Side: true,
		New: func(it *klines.Item, p []float64) any { return oscillator.NewAwesomeOscillator(it) }},
	{Name: "Camarilla", Pkg: "oscillator", Def: f(8), Alt: p1(1, 2, 5, 20, 100), Tiny: p1(1, 2, 5),
		New:  func(it *klines.Item, p []float64) any { return oscillator.NewCamarilla(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultCamarilla(it) }},
	{Name: "ChaikinOscillator", Pkg: "oscillator", Def: f(3, 10), Alt: pn(f(1, 2), f(2, 5), f(10, 3), f(12, 60)), Tiny: pn(f(1, 2), f(2, 3), f(3, 1)), Side: true,
		New:  func(it *klines.Item, p []float64) any { return oscillator.NewChaikinOscillator(it, i(p[0]), i(p[1])) },
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultChaikinOscillator(it) }},
	{Name: "IchimokuCloud", Pkg: "oscillator", Def: f(20, 60, 120), Alt: pn(f(1, 2, 1), f(3, 5, 4), f(9, 52, 26), f(10, 30, 60), f(26, 9, 3)), Tiny: pn(f(1, 2, 1), f(2, 3, 2), f(3, 1, 9)), Side: true,
		New: func(it *klines.Item, p []float64) any {
			return oscillator.NewIchimokuCloud(it, i(p[0]), i(p[1]), i(p[2]))
		},
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultIchimokuCloud(it) }},
	{Name: "PercentagePriceOscillator", Pkg: "oscillator", Def: f(12, 26, 9), Alt: pn(f(1, 2, 1), f(3, 6, 2), f(26, 12, 9), f(5, 5, 5)), Tiny: pn(f(1, 2, 2), f(2, 3, 1), f(3, 1, 2)), Side: true,
		New: func(it *klines.Item, p []float64) any {
			return oscillator.NewPercentagePriceOscillator(it, i(p[0]), i(p[1]), i(p[2]))
		},
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultPercentagePriceOscillator(it) }},
	{Name: "ProjectionOscillator", Pkg: "oscillator", Def: f(13, 3), Alt: pn(f(2, 1), f(5, 2), f(12, 5), f(50, 10), f(100, 3)), Tiny: pn(f(2, 1), f(3, 2), f(7, 2)), Side: true,
		New: func(it *klines.Item, p []float64) any {
			return oscillator.NewProjectionOscillator(it, i(p[0]), i(p[1]))
		},
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultProjectionOscillator(it) }},
	{Name: "StochasticOscillator", Pkg: "oscillator", Def: f(14), Alt: p1(1, 2, 5, 20, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return oscillator.NewStochasticOscillator(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultStochasticOscillator(it) }},
	{Name: "VolumeOscillator", Pkg: "oscillator", Def: f(5, 10), Alt: pn(f(1, 2), f(2, 5), f(10, 5), f(14, 28)), Tiny: pn(f(1, 2), f(2, 3), f(3, 1)),
		New:  func(it *klines.Item, p []float64) any { return oscillator.NewVolumeOscillator(it, i(p[0]), i(p[1])) },
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultVolumeOscillator(it) }},
	{Name: "WilliamsR", Pkg: "oscillator", Def: f(14), Alt: p1(1, 2, 5, 20, 50, 1000), Tiny: p1(1, 2, 3, 7), Side: true,
		New:  func(it *klines.Item, p []float64) any { return oscillator.NewWilliamsR(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return oscillator.NewDefaultWilliamsR(it) }},
	{Name: "AverageDirectionalIndex", Pkg: "trend", Def: f(30, 14), Alt: pn(f(1, 1), f(2, 2), f(14, 14), f(5, 3), f(3, 10), f(100, 14)), Tiny: pn(f(1, 1), f(2, 2), f(1, 3), f(3, 2)),
		New:  func(it *klines.Item, p []float64) any { return trend.NewAverageDirectionalIndex(it, i(p[0]), i(p[1])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultAverageDirectionalIndex(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewAverageDirectionalIndexOHLC(o, i(p[0]), i(p[1])), []any{o}
		}},
	{Name: "Vortex", Pkg: "trend", Def: f(9), Alt: p1(1, 2, 5, 14, 50, 1000), Tiny: p1(1, 2, 3, 7),
		New:  func(it *klines.Item, p []float64) any { return trend.NewVortex(it, i(p[0])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultVortex(it) }},
	{Name: "SuperTrend", Pkg: "trend", Def: f(10, 3, 1), Alt: pn(f(1, 1, 1), f(2, 1, 1), f(5, 2, 0), f(10, 3, 0), f(14, 1, 1), f(1, 1, 0), f(3, 5, 1)), Tiny: pn(f(1, 1, 1), f(2, 1, 1), f(1, 1, 0), f(2, 2, 1), f(2, 1, 0)), Side: true,
		New: func(it *klines.Item, p []float64) any {
			return trend.NewSuperTrend(it, i(p[0]), i(p[1]), p[2] != 0)
		},
		NewD: func(it *klines.Item) any { return trend.NewDefaultSuperTrend(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			h := it.HL2()
			return trend.NewSuperTrendOHLC(o, h, i(p[0]), i(p[1]), p[2] != 0), []any{o, h}
		}},
	{Name: "PivotPointSuperTrend", Pkg: "trend", Def: f(3, 8, 2.8), Alt: pn(f(1, 1, 1), f(2, 3, 1.5), f(1, 5, 0.5), f(2, 10, 3), f(4, 14, 1)), Tiny: pn(f(1, 1, 1), f(1, 1, 0.5), f(1, 2, 1), f(2, 1, 0.25)), Side: true,
		New: func(it *klines.Item, p []float64) any {
			return trend.NewPivotPointSuperTrend(it, i(p[0]), i(p[1]), p[2])
		},
		NewD: func(it *klines.Item) any { return trend.NewDefaultPivotPointSuperTrend(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewPivotPointSuperTrendOHLC(o, i(p[0]), i(p[1]), p[2]), []any{o}
		}},
	{Name: "UTBot", Pkg: "trend", Def: f(2, 1), Alt: pn(f(1, 1), f(1, 10), f(3, 2), f(2, 5), f(3, 14)), Tiny: pn(f(1, 1), f(2, 1), f(1, 2), f(2, 3)), Side: true,
		New:  func(it *klines.Item, p []float64) any { return trend.NewUTBot(it, i(p[0]), i(p[1])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultUTBot(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewUTBotOHLC(o, i(p[0]), i(p[1])), []any{o}
		}},
	{Name: "SmartMoneyConcepts", Pkg: "trend", Def: f(50, 3, 1, 0), Alt: pn(f(5, 3, 1, 1), f(6, 2, 5, 1), f(8, 1, 3, 0), f(10, 3, 2, 1), f(20, 1, 1, 0)), Tiny: pn(f(1, 1, 1, 1), f(2, 1, 5, 1), f(3, 1, 1, 0)), Heavy: 4,
		New: func(it *klines.Item, p []float64) any {
			m := trend.NewSmartMoneyConcepts(it, i(p[0]), i(p[1]), i(p[2]))
			m.EQHEQL_Enable = p[3] != 0
			return m
		},
		NewD: func(it *klines.Item) any { return trend.NewDefaultSmartMoneyConcepts(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			m := trend.NewSmartMoneyConceptsOHLC(o.Open, o.High, o.Low, o.Close, o.TimeUnix, i(p[0]), i(p[1]), i(p[2]))
			m.EQHEQL_Enable = p[3] != 0
			return m, []any{o}
		}},
	{Name: "BreakoutProbability", Pkg: "trend", Def: f(1.2, 5), Alt: pn(f(1, 1), f(0.5, 3), f(2.5, 2), f(1, 9), f(0.25, 4), f(1, 0), f(2, -3)), Tiny: pn(f(1, 5), f(12.5, 3), f(25, 2)), Heavy: 1,
		New:  func(it *klines.Item, p []float64) any { return trend.NewBreakoutProbability(it, p[0], i(p[1])) },
		NewD: func(it *klines.Item) any { return trend.NewDefaultBreakoutProbability(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewBreakoutProbabilityOHLC(o, p[0], i(p[1])), []any{o}
		}},
	{Name: "ReversalSignals", Pkg: "trend", Def: f(), Tiny: none,
		New: func(it *klines.Item, p []float64) any { return trend.NewReversalSignals(it) }},
	{Name: "LinearRegressionCandles", Pkg: "trend", Def: f(7, 11, 1), Alt: pn(f(1, 2, 1), f(3, 5, 0), f(7, 11, 0), f(2, 50, 1), f(3, 1000, 0)), Tiny: pn(f(1, 2, 1), f(2, 3, 0), f(2, 7, 1)),
		New: func(it *klines.Item, p []float64) any {
			return trend.NewLinearRegressionCandles(it, i(p[0]), i(p[1]), p[2] != 0)
		},
		NewD: func(it *klines.Item) any { return trend.NewDefaultLinearRegressionCandles(it) },
		NewO: func(it *klines.Item, p []float64) (any, []any) {
			o := cols(it)
			return trend.NewLinearRegressionCandlesOHLC(o, i(p[0]), i(p[1]), p[2] != 0), []any{o}
		}},
	{Name: "StochasticHeat", Pkg: "trend", Def: f(8, 7, 26, 25, 8), Alt: pn(f(1, 2, 3, 28, 4), f(2, 3, 5, 28, 2), f(1, 1, 1, 28, 8), f(3, 2, 4, 10, 8), f(1, 2, 3, 28, 0)), Tiny: pn(f(1, 1, 2, 28, 2), f(1, 2, 2, 28, 4), f(2, 2, 2, 25, 8)), Side: true, Heavy: 20,
		New: func(it *klines.Item, p []float64) any {
			return trend.NewStochasticHeat(it, i(p[0]), i(p[1]), i(p[2]), i(p[3]), types.MATypes(p[4]))
		},
		NewD: func(it *klines.Item) any { return trend.NewDefaultStochasticHeat(it) }},
}

func init() {
	for _, d := range registry {
		if d.Alt == nil && len(d.Def) > 0 {
			panic(d.Name)
		}
	}
}

func indByName(n string) *Ind {
	for _, d := range registry {
		if d.Name == n {
			return d
		}
	}
	panic("no indicator " + n)
}

// AllParams: default first, then the alternatives.
func (d *Ind) AllParams() [][]float64 { return append([][]float64{d.Def}, d.Alt...) }

// ---------------------------------------------------------------- reflection

// Frame is what an indicator reports: one time per record and named columns.
type Frame struct {
	N     int
	Times []int64
	Names []string
	Cols  [][]float64
}

func (fr *Frame) Col(name string) []float64 {
	for k, n := range fr.Names {
		if n == name {
			return fr.Cols[k]
		}
	}
	return nil
}

var timeType = reflect.TypeOf(time.Time{})
var zeroUnix = time.Time{}.Unix()

func methodCall(obj any, name string, args ...reflect.Value) []reflect.Value {
	m := reflect.ValueOf(obj).MethodByName(name)
	if !m.IsValid() {
		return nil
	}
	return m.Call(args)
}

func calc(obj any) { methodCall(obj, "Calculation") }

// flat appends the value of v to the frame columns under prefix.
type flatField struct {
	name string
	get  func(v reflect.Value) float64
}

var noCache bool // several goroutines use the harness

var flatCache = map[reflect.Type][]flatField{}

func flatFields(t reflect.Type) []flatField {
	if !noCache {
		if r, ok := flatCache[t]; ok {
			return r
		}
	}
	var out []flatField
	for k := 0; k < t.NumField(); k++ {
		ft := t.Field(k)
		k := k
		if ft.Type == timeType && ft.Name == "Time" {
			continue
		}
		if !ft.IsExported() {
			continue
		}
		switch ft.Type.Kind() {
		case reflect.Float64, reflect.Float32:
			out = append(out, flatField{ft.Name, func(v reflect.Value) float64 { return v.Field(k).Float() }})
		case reflect.Bool:
			out = append(out, flatField{ft.Name, func(v reflect.Value) float64 {
				if v.Field(k).Bool() {
					return 1
				}
				return 0
			}})
		case reflect.Int, reflect.Int64, reflect.Int32:
			out = append(out, flatField{ft.Name, func(v reflect.Value) float64 { return float64(v.Field(k).Int()) }})
		case reflect.Uint, reflect.Uint64, reflect.Uint32:
			out = append(out, flatField{ft.Name, func(v reflect.Value) float64 { return float64(v.Field(k).Uint()) }})
		case reflect.Slice:
			// a fixed-size list of small records (BreakoutProbability): flatten ten entries
			et := ft.Type.Elem()
			if et.Kind() != reflect.Struct {
				continue
			}
			for j := 0; j < 10; j++ {
				j := j
				for _, sf := range flatFields(et) {
					sf := sf
					out = append(out, flatField{fmt.Sprintf("%s%d.%s", ft.Name, j, sf.name), func(v reflect.Value) float64 {
						l := v.Field(k)
						if j >= l.Len() {
							return 0
						}
						return sf.get(l.Index(j))
					}})
				}
			}
		}
	}
	if !noCache {
		flatCache[t] = out
	}
	return out
}

// frameOf reads GetData.
func frameOf(obj any) *Frame {
	r := methodCall(obj, "GetData")
	if r == nil {
		panic("indicator without GetData")
	}
	return frameOfSlice(r[0])
}

func frameOfSlice(s reflect.Value) *Frame {
	n := s.Len()
	et := s.Type().Elem()
	ptr := et.Kind() == reflect.Pointer
	if ptr {
		et = et.Elem()
	}
	fs := flatFields(et)
	fr := &Frame{N: n, Times: make([]int64, n), Names: make([]string, len(fs)), Cols: make([][]float64, len(fs))}
	buf := make([]float64, n*len(fs))
	for k := range fs {
		fr.Names[k] = fs[k].name
		fr.Cols[k] = buf[k*n : (k+1)*n]
	}
	tf, hasT := et.FieldByName("Time")
	for j := 0; j < n; j++ {
		v := s.Index(j)
		if ptr {
			v = v.Elem()
		}
		if hasT {
			fr.Times[j] = v.FieldByIndex(tf.Index).Interface().(time.Time).Unix()
		}
		for k := range fs {
			fr.Cols[k][j] = fs[k].get(v)
		}
	}
	return fr
}

// sideOf calls AnalysisSide; ok is false for indicators without one.
func sideOf(obj any) (utils.SideData, bool) {
	if s, ok := obj.(utils.IStrategy); ok {
		return s.AnalysisSide(), true
	}
	return utils.SideData{}, false
}

// sameBits compares floats treating NaN as equal to NaN and 0 as equal to -0.
func same(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

// diffFrames: first difference of the first n records, exact; "" if none.
func diffFrames(a, b *Frame, n int) string {
	if a.N < n || b.N < n {
		return fmt.Sprintf("record counts %d and %d, expected at least %d", a.N, b.N, n)
	}
	if len(a.Names) != len(b.Names) {
		return "different columns"
	}
	for j := 0; j < n; j++ {
		if a.Times[j] != b.Times[j] {
			return fmt.Sprintf("record %d time %d vs %d", j, a.Times[j], b.Times[j])
		}
	}
	for k := range a.Names {
		ca, cb := a.Cols[k], b.Cols[k]
		for j := 0; j < n; j++ {
			if !same(ca[j], cb[j]) {
				return fmt.Sprintf("record %d %s %v vs %v", j, a.Names[k], ca[j], cb[j])
			}
		}
	}
	return ""
}

func diffSides(a, b []utils.Side, n int) string {
	if len(a) < n || len(b) < n {
		return fmt.Sprintf("signal counts %d and %d, expected at least %d", len(a), len(b), n)
	}
	for j := 0; j < n; j++ {
		if a[j] != b[j] {
			return fmt.Sprintf("signal %d is %s vs %s", j, a[j], b[j])
		}
	}
	return ""
}
