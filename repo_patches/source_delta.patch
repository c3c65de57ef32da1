From b38f47acfd4886f2dc458a487a616cf904d9073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 01/42] fix: ta window functions return zeros instead of
 panicking when history is shorter than the period

---
 utils/ta/ta.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..f74edee 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -343,6 +359,10 @@ func Wma(period int, values []float64) []float64 {
 
 	result := make([]float64, len(values))
 
+	if period < 1 || len(values) < period {
+		return result
+	}
+
 	lookbackTotal := period - 1
 	startIdx := lookbackTotal
 
@@ -451,6 +471,10 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	outIdx := inTimePeriod
 	today := inTimePeriod + 1
 
@@ -483,6 +507,10 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	outIdx := inTimePeriod
 	today := inTimePeriod
@@ -1001,6 +1029,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
-- 
2.43.0


From 134225e3fa37dc178158cbf49ac8c4f5b77adcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 02/42] fix: CCI is 0, not NaN or Inf, when the mean deviation
 is 0

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index f74edee..f874e70 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -423,6 +423,9 @@ func CCI(hlc3 []float64, period, smaPeriod int) []float64 {
 
 	// 计算CCI值
 	for i := period - 1; i < len(hlc3); i++ {
+		if md[i] == 0 {
+			continue
+		}
 		typicalPrice := typicalPrices[i]
 		cci := (typicalPrice - ma[i]) / (0.015 * md[i])
 		ccis[i] = cci
-- 
2.43.0


From a2800201a5c1bb86a52e1592a00f4c18a6b0cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 03/42] fix: SD of an empty series is 0

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index f874e70..0426023 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -216,6 +216,10 @@ func Stochastic(closing, highs, lows []float64, period int) (k, d []float64) {
 
 // StdDev - 标准差
 func SD(values []float64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
 	// 首先计算收盘价的平均值
 	sum := 0.0
 	for _, k := range values {
-- 
2.43.0


From 55070dbe2fc6dadb4a6d8e6fb54e4fc8cf012aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 04/42] fix: PivotMax/PivotMin return the extreme value for
 negative series and for left/right ties

---
 utils/ta/ta.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 0426023..6896239 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -874,6 +874,7 @@ func PivotLow(values []float64, left, right int) []float64 {
 // PivotMax 以 index 为起始点，向 左、右 开始查找最大值
 func PivotMax(values []float64, index, left, right int) (val float64, position int) {
 	var leftVal, rightVal float64
+	leftVal, rightVal = values[index], values[index]
 
 	// val = values[index]
 	position = index
@@ -909,6 +910,9 @@ func PivotMax(values []float64, index, left, right int) (val float64, position i
 	} else if leftVal < rightVal {
 		return rightVal, rightPositions
 	}
+	if leftVal != values[index] {
+		return leftVal, leftPositions
+	}
 	return values[index], index
 
 }
@@ -951,6 +955,9 @@ func PivotMin(values []float64, index, left, right int) (val float64, position i
 	} else if leftVal > rightVal {
 		return rightVal, rightPositions
 	}
+	if leftVal != values[index] {
+		return leftVal, leftPositions
+	}
 	return values[index], index
 
 }
-- 
2.43.0


From 198c124b7893e80b702b146b9e41e61f6f2b7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 05/42] fix: CheckEquals compares every pair to its end and
 terminates on no input

---
 helpertools/CheckEquals.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/helpertools/CheckEquals.go b/helpertools/CheckEquals.go
index f4dcf2a..3761f49 100644
--- a/helpertools/CheckEquals.go
+++ b/helpertools/CheckEquals.go
@@ -12,9 +12,14 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 		return errors.New("not pairs")
 	}
 
+	if len(inputs) == 0 {
+		return nil
+	}
+
 	i := 0
 
 	for {
+		ended := 0
 		for j := 0; j < len(inputs); j += 2 {
 			actual, actualOk := <-inputs[j]
 			expected, expectedOk := <-inputs[j+1]
@@ -24,6 +29,11 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 					return fmt.Errorf("not ended the same actual %v expected %v", actualOk, expectedOk)
 				}
 
+				ended++
+				if ended < len(inputs)/2 {
+					continue
+				}
+
 				return nil
 			}
 
-- 
2.43.0


From 0139e7eafb37684990caf04210166dc04939dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 06/42] fix: SortCandlesByTimestamp sorts descending when desc
 is true

---
 utils/klines/kline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d495109..667dcff 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -191,7 +191,7 @@ func (e *Item) RemoveDuplicates() {
 
 // SortCandlesByTimestamp sorts candles by timestamp
 func (e *Item) SortCandlesByTimestamp(desc bool) {
-	if desc {
+	if !desc {
 		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
 		return
 	}
-- 
2.43.0


From 99f8fb3ca42c642013d785567be34d838f23cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 07/42] fix: Heikin-Ashi low is the minimum of low, open and
 close; second candle opens from the first

---
 utils/klines/technical_analysis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 8874c74..c716f25 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -50,7 +50,7 @@ func (e *Item) ToHeikinAshi() *Item {
 	for index, candle := range e.Candles {
 
 		var open = (candle.Open + candle.Close) / 2
-		if index > 1 {
+		if index > 0 {
 			var prev = e.Candles[index-1]
 			open = (prev.Open + prev.Close) / 2
 		}
@@ -59,7 +59,7 @@ func (e *Item) ToHeikinAshi() *Item {
 			Open:     open,
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
-			Low:      math.Max(candle.Low, math.Min(open, candle.Close)),
+			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0


From 6bd436d50cfc6bc340af9f7bb669f3574ef2a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 08/42] fix: ConvertToNewInterval reports insufficient data for
 an empty history instead of panicking

---
 utils/klines/kline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 667dcff..90e5645 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -45,6 +45,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	if len(e.Candles) == 0 {
+		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
+	}
+
 	start := time.Unix(e.Candles[0].TimeUnix, 0)
 	end := time.Unix(e.Candles[len(e.Candles)-1].TimeUnix, 0).Add(e.Interval.Duration())
 	window := end.Sub(start)
-- 
2.43.0


From 0e0ac624feec51cbac4d937cc6e02fb3ef5ad9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 09/42] fix: ConvertToNewInterval keeps trailing candles out of
 the last complete candle

---
 utils/klines/kline.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 90e5645..b7a4f84 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -103,6 +103,11 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	target = 0
 	for x := range e.Candles {
 
+		// candles past the last complete new candle are not converted
+		if e.Candles[x].TimeUnix >= candles[target].TimeUnix+int64(newInterval.Duration().Seconds()) {
+			break
+		}
+
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix && candles[target].Open == 0 {
 			candles[target].Open = e.Candles[x].Open
 		}
-- 
2.43.0


From 8cfb46a33a63d590579d1a764957c10bb42a3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 10/42] fix: Rma returns one record per candle instead of
 padding with zero records

---
 trend/Rma.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..1ac9baf 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -41,6 +41,7 @@ func (e *Rma) Calculation() *Rma {
 	var rma = ta.Rma(e.Period, e.kline.GetOHLC().Close)
 
 	e.data = make([]RmaData, len(rma))
+	e.data = e.data[:0]
 	for i, value := range rma {
 
 		e.data = append(e.data, RmaData{
-- 
2.43.0


From 2339372f6b7b3263bfee99e28094b0640ff52210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 11/42] fix: Atr true range counts downward gaps, as documented

---
 trend/Atr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 56d4b84..f315640 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -56,7 +56,7 @@ func (e *Atr) Calculation() *Atr {
 		if i != 0 {
 			prevClose = closes[i-1]
 		}
-		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, lows[i]-prevClose))
+		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, prevClose-lows[i]))
 		AtrPointStruct.Time = time.Unix(e.kline.Candles[i].TimeUnix, 0)
 	}
 	var atr = ta.Rma(e.Period, tr)
-- 
2.43.0


From 0bcad8a943182a15be36143bc5531228b8db676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:19 +0000
Subject: [PATCH 12/42] fix: Boll deviation is not NaN when rounding makes the
 variance slightly negative

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..602ff3e 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -83,7 +83,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 		if i < period-1 {
 			result[i] = 0.0
 		} else {
-			result[i] = math.Sqrt(sum2/float64(period) - sma[i]*sma[i])
+			result[i] = math.Sqrt(math.Max(0, sum2/float64(period)-sma[i]*sma[i]))
 			w := e.kline.Candles[i-(period-1)].Close
 			sum2 -= w * w
 		}
-- 
2.43.0


From 8417740d59bd01ed4e0cc085ecadbd758a1a4b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 13/42] fix: Boll bands are PeriodK deviations wide, as
 documented

---
 channel/Boll.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 602ff3e..d7c8c81 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -100,8 +100,9 @@ func (e *Boll) Calculation() *Boll {
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
-	var upper = ta.Add(middle, md)
-	var lower = ta.Subtract(middle, md)
+	var band = ta.MultiplyBy(md, float64(e.PeriodK))
+	var upper = ta.Add(middle, band)
+	var lower = ta.Subtract(middle, band)
 
 	for i := range middle {
 		e.data[i] = BollData{
-- 
2.43.0


From d94ad70aa9aaa42f87bea63ff6ed8a24f4015793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 14/42] fix: Boll reports Sell when the close crosses below the
 lower band

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index d7c8c81..048c5e6 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -140,7 +140,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 		if price > v.Upper && prevPrice < prevItem.Upper {
 			sides[i] = utils.Buy
-		} else if price < v.Lower && prevPrice > prevPrice {
+		} else if price < v.Lower && prevPrice > prevItem.Lower {
 			sides[i] = utils.Sell
 		} else {
 			sides[i] = utils.Hold
-- 
2.43.0


From 90c26652d75f74b2632e71213dc03b4b1f410102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 15/42] fix: MoneyFlowIndex is 100 when the period has no
 negative flow

---
 volume/MoneyFlowIndex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..d7588a9 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -69,11 +69,17 @@ func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 	positiveMoneyFlow := ta.KeepPositives(moneyFlow)
 	negativeMoneyFlow := ta.KeepNegatives(moneyFlow)
 
-	moneyRatio := ta.Divide(
-		ta.Sum(period, positiveMoneyFlow),
-		ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1)))
+	positiveSum := ta.Sum(period, positiveMoneyFlow)
+	negativeSum := ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1))
+	moneyRatio := ta.Divide(positiveSum, negativeSum)
 
 	moneyFlowIndex := ta.AddBy(ta.MultiplyBy(ta.Pow(ta.AddBy(moneyRatio, 1), -1), -100), 100)
+	for i := range moneyFlowIndex {
+		// no outflow in the period: the ratio is infinite
+		if negativeSum[i] == 0 && positiveSum[i] > 0 {
+			moneyFlowIndex[i] = 100
+		}
+	}
 
 	for i := 0; i < len(moneyFlowIndex); i++ {
 		e.data = append(e.data, MoneyFlowIndexData{
-- 
2.43.0


From a1533e868439ec7f67940cd6901fa0e1da80cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 16/42] fix: Vortex lines are 0, not NaN, when there was no
 range

---
 trend/Vortex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..77b2eaa 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -75,6 +75,10 @@ func (e *Vortex) Calculation() *Vortex {
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
 		trSum += tr[j]
 
+		if trSum == 0 {
+			continue
+		}
+
 		plusVi[i] = plusVmSum / trSum
 		minusVi[i] = minusVmSum / trSum
 	}
-- 
2.43.0


From 6bb6d578aecf56825deefca175a59e1341c1561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 17/42] fix: AverageDirectionalIndex stays finite when there is
 no range or no directional movement

---
 trend/AverageDirectionalIndex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..f7ad8e7 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -122,8 +122,14 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	dx := make([]float64, len(close))
 
 	for i := e.Period - 1; i < len(close); i++ {
+		if smoothedTR[i] == 0 {
+			continue
+		}
 		plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
 		minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
+		if plusDI[i]+minusDI[i] == 0 {
+			continue
+		}
 		dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / (plusDI[i] + minusDI[i]))
 	}
 
-- 
2.43.0


From c603f406eed5a07a14c59ef5fc10399ede49095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 18/42] fix: Rsi of exactly Period candles is all zeros instead
 of a panic

---
 trend/Rsi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..7bf1341 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -104,7 +104,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
-- 
2.43.0


From 256d6821b644c7847eb1818fcf8b4a2441377bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 19/42] fix: Kdj with Period 1 starts from 50 instead of
 panicking

---
 trend/Kdj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..749f2ef 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -164,8 +164,12 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
 			}
 
-			k[i] = (2.0/3)*k[i-1] + 1.0/3*rsv[i]
-			d[i] = (2.0/3)*d[i-1] + 1.0/3*k[i]
+			prevK, prevD := 50.0, 50.0
+			if i > 0 {
+				prevK, prevD = k[i-1], d[i-1]
+			}
+			k[i] = (2.0/3)*prevK + 1.0/3*rsv[i]
+			d[i] = (2.0/3)*prevD + 1.0/3*k[i]
 			// remove first value in array.
 			periodLowArr = periodLowArr[1:]
 			periodHighArr = periodHighArr[1:]
-- 
2.43.0


From 413565f2c4b2c06bcdcdc3ccdc1aa765265f9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 20/42] fix: Kdj GetListK, GetListD and GetListJ calculate on
 first use like every other accessor

---
 trend/Kdj.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 749f2ef..f1c0259 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -104,6 +104,10 @@ func (e *Kdj) GetData() []KdjData {
 
 // GetListK Func
 func (e *Kdj) GetListK() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.K)
@@ -113,6 +117,10 @@ func (e *Kdj) GetListK() []float64 {
 
 // GetListD Func
 func (e *Kdj) GetListD() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.D)
@@ -122,6 +130,10 @@ func (e *Kdj) GetListD() []float64 {
 
 // GetListJ Func
 func (e *Kdj) GetListJ() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.J)
-- 
2.43.0


From 2e3ff69224eaa120348c780a6f950ff3d227d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 21/42] fix: Calculation recomputes its records instead of
 appending a second copy

---
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 channel/UlcerIndex.go                   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/Ma.go                             | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/Vortex.go                         | 1 +
 volume/AccumulationDistribution.go      | 1 +
 volume/ChaikinMoneyFlow.go              | 1 +
 volume/EaseOfMovement.go                | 1 +
 volume/ForceIndex.go                    | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 volume/NegativeVolumeIndex.go           | 1 +
 volume/Obv.go                           | 1 +
 volume/VolumePriceTrend.go              | 1 +
 volume/Vwma.go                          | 1 +
 26 files changed, 26 insertions(+)

diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..4ce6a5b 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -49,6 +49,7 @@ func NewDefaultDonchianChannel(klineItem *klines.Item) *DonchianChannel {
 
 // Calculation Func
 func (e *DonchianChannel) Calculation() *DonchianChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..f0eb736 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -50,6 +50,7 @@ func NewDefaultKeltnerChannel(klineItem *klines.Item) *KeltnerChannel {
 
 // Calculation Func
 func (e *KeltnerChannel) Calculation() *KeltnerChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..7df5029 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -46,6 +46,7 @@ func NewDefaultUlcerIndex(klineItem *klines.Item) *UlcerIndex {
 
 // Calculation Func
 func (e *UlcerIndex) Calculation() *UlcerIndex {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..d1ebf9c 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -34,6 +34,7 @@ func NewAwesomeOscillator(klineItem *klines.Item) *AwesomeOscillator {
 
 // Calculation Func
 func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..72c1c5a 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -49,6 +49,7 @@ func NewDefaultChaikinOscillator(klineItem *klines.Item) *ChaikinOscillator {
 
 // Calculation Func
 func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
+	e.data = nil
 
 	ad := volume.NewAccumulationDistribution(e.kline).GetValues()
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..4307d64 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -59,6 +59,7 @@ func NewDefaultIchimokuCloud(klineItem *klines.Item) *IchimokuCloud {
 
 // Calculation Func
 func (e *IchimokuCloud) Calculation() *IchimokuCloud {
+	e.data = nil
 
 	conversionPeriod := e.ConversionPeriod
 	leadingSpanBPeriod := e.LeadingSpanBPeriod
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..82d71c7 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -53,6 +53,7 @@ func NewDefaultPercentagePriceOscillator(klineItem *klines.Item) *PercentagePric
 
 // Calculation Func
 func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
+	e.data = nil
 
 	var fastPeriod = e.FastPeriod
 	var slowPeriod = e.SlowPeriod
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..9dff989 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -47,6 +47,7 @@ func NewDefaultProjectionOscillator(klineItem *klines.Item) *ProjectionOscillato
 
 // Calculation Func
 func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
+	e.data = nil
 
 	period := e.Period
 	smooth := e.Smooth
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..8697b12 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -48,6 +48,7 @@ func NewDefaultStochasticOscillator(klineItem *klines.Item) *StochasticOscillato
 
 // Calculation Func
 func (e *StochasticOscillator) Calculation() *StochasticOscillator {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..766a86b 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -46,6 +46,7 @@ func NewDefaultWilliamsR(klineItem *klines.Item) *WilliamsR {
 
 // Calculation Func
 func (e *WilliamsR) Calculation() *WilliamsR {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..4cef15d 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -60,6 +60,7 @@ func ComputeCCI(close, matp, md []float64) []float64 {
 
 // Calculation Func
 func (e *AiCoinCCI) Calculation() *AiCoinCCI {
+	e.data = nil
 
 	close := e.kline.GetOHLC().Close
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..23347ab 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -68,6 +68,7 @@ func NewDefaultCci(klineItem *klines.Item) *Cci {
 
 // Calculation Func
 func (e *Cci) Calculation() *Cci {
+	e.data = nil
 
 	hlc3 := e.kline.HLC3()
 
diff --git a/trend/Ma.go b/trend/Ma.go
index 48e6802..e4167d3 100644
--- a/trend/Ma.go
+++ b/trend/Ma.go
@@ -47,6 +47,7 @@ func (e *Ma) GetData() []MaData {
 
 // Calculation Func
 func (e *Ma) Calculation() *Ma {
+	e.data = nil
 
 	closes := e.kline.GetOHLC().Close
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 7bf1341..0509808 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -38,6 +38,7 @@ func NewDefaultRsi(klineItem *klines.Item) *Rsi {
 
 // Calculation Func
 func (e *Rsi) Calculation() *Rsi {
+	e.data = nil
 
 	rsiArray := e.rsi(e.kline.GetOHLC().Close, e.Period)
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..fb1b1e2 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -47,6 +47,7 @@ func NewDefaultStochRsi(klineItem *klines.Item) *StochRsi {
 
 // Calculation Func
 func (e *StochRsi) Calculation() *StochRsi {
+	e.data = nil
 
 	rsi := NewRsi(e.kline, e.RsiLength).GetValue()
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..3bf31e7 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -57,6 +57,7 @@ func NewDefaultStochasticHeat(klineItem *klines.Item) *StochasticHeat {
 
 // Calculation Func
 func (e *StochasticHeat) Calculation() *StochasticHeat {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var highs = ohlc.High
diff --git a/trend/Vortex.go b/trend/Vortex.go
index 77b2eaa..6140ac6 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -39,6 +39,7 @@ func NewDefaultVortex(klineItem *klines.Item) *Vortex {
 
 // Calculation Func
 func (e *Vortex) Calculation() *Vortex {
+	e.data = nil
 
 	period := e.Period
 
diff --git a/volume/AccumulationDistribution.go b/volume/AccumulationDistribution.go
index 23bcba0..f380d26 100644
--- a/volume/AccumulationDistribution.go
+++ b/volume/AccumulationDistribution.go
@@ -45,6 +45,7 @@ func NewDefaultAccumulationDistribution(klineItem *klines.Item) *AccumulationDis
 
 // Calculation Func
 func (e *AccumulationDistribution) Calculation() *AccumulationDistribution {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/ChaikinMoneyFlow.go b/volume/ChaikinMoneyFlow.go
index 6f33759..cb5313e 100644
--- a/volume/ChaikinMoneyFlow.go
+++ b/volume/ChaikinMoneyFlow.go
@@ -50,6 +50,7 @@ func NewDefaultChaikinMoneyFlow(klineItem *klines.Item) *ChaikinMoneyFlow {
 
 // Calculation Func
 func (e *ChaikinMoneyFlow) Calculation() *ChaikinMoneyFlow {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/EaseOfMovement.go b/volume/EaseOfMovement.go
index 513c2f9..0ce63de 100644
--- a/volume/EaseOfMovement.go
+++ b/volume/EaseOfMovement.go
@@ -46,6 +46,7 @@ func NewDefaultEaseOfMovement(klineItem *klines.Item) *EaseOfMovement {
 
 // Calculation Func
 func (e *EaseOfMovement) Calculation() *EaseOfMovement {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/ForceIndex.go b/volume/ForceIndex.go
index d6f095b..2674839 100644
--- a/volume/ForceIndex.go
+++ b/volume/ForceIndex.go
@@ -42,6 +42,7 @@ func NewDefaultForceIndex(klineItem *klines.Item) *ForceIndex {
 
 // Calculation Func
 func (e *ForceIndex) Calculation() *ForceIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index d7588a9..629f303 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -49,6 +49,7 @@ func NewDefaultMoneyFlowIndex(klineItem *klines.Item) *MoneyFlowIndex {
 
 // Calculation Func
 func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/NegativeVolumeIndex.go b/volume/NegativeVolumeIndex.go
index c8a659e..3fb8a3f 100644
--- a/volume/NegativeVolumeIndex.go
+++ b/volume/NegativeVolumeIndex.go
@@ -44,6 +44,7 @@ func NewDefaultNegativeVolumeIndex(klineItem *klines.Item) *NegativeVolumeIndex
 
 // Calculation Func
 func (e *NegativeVolumeIndex) Calculation() *NegativeVolumeIndex {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/Obv.go b/volume/Obv.go
index 644a48c..44c3e4f 100644
--- a/volume/Obv.go
+++ b/volume/Obv.go
@@ -33,6 +33,7 @@ func NewObv(klineItem *klines.Item) *Obv {
 
 // Calculation Func
 func (e *Obv) Calculation() *Obv {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closes = ohlc.Close
diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..a487ab1 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -42,6 +42,7 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 
 // Calculation Func
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/Vwma.go b/volume/Vwma.go
index a0efa2a..cde0592 100644
--- a/volume/Vwma.go
+++ b/volume/Vwma.go
@@ -45,6 +45,7 @@ func NewDefaultVwma(klineItem *klines.Item) *Vwma {
 
 // Calculation Func
 func (e *Vwma) Calculation() *Vwma {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
-- 
2.43.0


From 01ff56106314a6cbe1ad640493af49e90b56d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 22/42] fix: SmartMoneyConcepts records before the swing length
 carry their candle time

---
 trend/SmartMoneyConcepts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b22def..dce1236 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,9 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 
 	var trend = 0
 	var itrend = 0
-- 
2.43.0


From c75daa6d21a5e1146a38fad7c77315815feed01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 23/42] fix: SmartMoneyConcepts calculation does not depend on
 a previous calculation

---
 trend/SmartMoneyConcepts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index dce1236..9218e01 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -133,6 +133,12 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 	var atr = ta.Atr(highs, lows, closes, 200)
 
+	// start from the initial state on every calculation
+	e.OrderBlockBullish, e.OrderBlockBearish = nil, nil
+	e.os1Prev, e.os2Prev, e.idxPrevBullish, e.idxPrevBearish = 0, 0, 0, 0
+	e.StrongHigh, e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+	e.StrongLow, e.WeakLow = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+
 	e.data = make([]SmartMoneyConceptsData, len(closes))
 	for i := range e.data {
 		e.data[i].Time = time.Unix(times[i], 0)
-- 
2.43.0


From 50dbcf1dd9f5bc7c2a9282b77dc3442a19baf8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 24/42] fix: SmartMoneyConcepts order blocks work for prices
 above 99999999

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9218e01..50b065e 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -448,7 +448,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, atr []float64, list SmartMoneyConceptsDataOrderBlockList, obType int) SmartMoneyConceptsDataOrderBlockList {
 
-	var min = 99999999.0
+	var min = math.MaxFloat64
 	var max = 0.0
 	var idx = 1
 	var ob_threshold = atr
-- 
2.43.0


From 03f9e620e550ae382262948d9f894b8a7bf11f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 25/42] fix: SmartMoneyConcepts long low CHoCH follows the long
 trend, as the long high does

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 50b065e..71da5ee 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -322,7 +322,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		if ta.CrossUnder(closes[:i+1], btm_y) && btm_cross {
 
 			var choch = false
-			if itrend > 0 {
+			if trend > 0 {
 				choch = true
 			}
 
-- 
2.43.0


From 358b584ed0bb6b21176c19a41255ac868acec9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 26/42] fix: removing an absent order block leaves the list as
 it is

---
 trend/SmartMoneyConcepts_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts_type.go b/trend/SmartMoneyConcepts_type.go
index 2b71777..b189c8f 100644
--- a/trend/SmartMoneyConcepts_type.go
+++ b/trend/SmartMoneyConcepts_type.go
@@ -51,5 +51,5 @@ func (e SmartMoneyConceptsDataOrderBlockList) Remove(k SmartMoneyConceptsDataOrd
 		}
 	}
 
-	return nil
+	return list
 }
-- 
2.43.0


From 51adc23f0e391e34ebc748399072380d841e5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 27/42] fix: the first record of PivotPointSuperTrend,
 BreakoutProbability and UTBot carries its candle

---
 trend/BreakoutProbability.go  | 3 +++
 trend/PivotPointSuperTrend.go | 3 +++
 trend/UTBot.go                | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 0446063..a9b9617 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -109,6 +109,9 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 	}()
 
 	e.data = make([]BreakoutProbabilityData, len(closes))
+	if len(closes) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
 	for i := 1; i < len(closes); i++ {
 
 		var dataItem = BreakoutProbabilityData{
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..158713c 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -90,6 +90,9 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 
 	e.data = make([]PivotPointSuperTrendData, len(closes))
 
+	if len(closes) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
 	for i := 1; i < len(closes); i++ {
 
 		var c = closes[i]
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..ff9f8e6 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -73,6 +73,8 @@ func (e *UTBot) Calculation() *UTBot {
 	e.data = make([]UTBotData, len(closes))
 	for i, close := range closes {
 		if i == 0 {
+			e.data[i].Time = time.Unix(times[i], 0)
+			e.data[i].Close = close
 			continue
 		}
 		// var prevClose = closeing[i-1]
-- 
2.43.0


From 4f1996d6f528d803da76e3144038c463f4794ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 28/42] fix: candles before the first comparable one are Hold,
 not Buy, in AnalysisSide

---
 channel/Boll.go                         | 1 +
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 oscillator/AbsolutePriceOscillator.go   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/EMAVegas.go                       | 2 ++
 trend/Kdj.go                            | 1 +
 trend/Macd.go                           | 1 +
 trend/PivotPointSuperTrend.go           | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/SuperTrend.go                     | 1 +
 trend/UTBot.go                          | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 23 files changed, 24 insertions(+)

diff --git a/channel/Boll.go b/channel/Boll.go
index 048c5e6..7ea3eef 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -131,6 +131,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 4ce6a5b..277e77e 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -85,6 +85,7 @@ func (e *DonchianChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f0eb736..76b5565 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -90,6 +90,7 @@ func (e *KeltnerChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AbsolutePriceOscillator.go b/oscillator/AbsolutePriceOscillator.go
index 78b2196..0820641 100644
--- a/oscillator/AbsolutePriceOscillator.go
+++ b/oscillator/AbsolutePriceOscillator.go
@@ -60,6 +60,7 @@ func (e *AbsolutePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index d1ebf9c..ed107df 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -64,6 +64,7 @@ func (e *AwesomeOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index 72c1c5a..ed8dda2 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -79,6 +79,7 @@ func (e *ChaikinOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 4307d64..6f88fc1 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -120,6 +120,7 @@ func (e *IchimokuCloud) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < e.ConversionPeriod {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 82d71c7..08d6180 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -91,6 +91,7 @@ func (e *PercentagePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index 9dff989..632c2f9 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -88,6 +88,7 @@ func (e *ProjectionOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 8697b12..9fd07a5 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -95,6 +95,7 @@ func (e *StochasticOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 766a86b..d17c5a2 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -85,6 +85,7 @@ func (e *WilliamsR) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index 4cef15d..8c57991 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -86,6 +86,7 @@ func (e *AiCoinCCI) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 23347ab..870dcd0 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -157,6 +157,7 @@ func (e *Cci) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..98bfaf7 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -108,6 +108,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 
 	for i := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var item = e.data[i]
@@ -115,6 +116,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 		var t1, d1 bool
 
 		if (i - 10 - 1) < 0 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Kdj.go b/trend/Kdj.go
index f1c0259..372a34b 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -75,6 +75,7 @@ func (e *Kdj) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Macd.go b/trend/Macd.go
index 66ca477..39875a5 100644
--- a/trend/Macd.go
+++ b/trend/Macd.go
@@ -96,6 +96,7 @@ func (e *Macd) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index 158713c..565a80a 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -162,6 +162,7 @@ func (e *PivotPointSuperTrend) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 0509808..5a27cc9 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -62,6 +62,7 @@ func (e *Rsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index fb1b1e2..1d48361 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -77,6 +77,7 @@ func (e *StochRsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 3bf31e7..ec961af 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -190,6 +190,7 @@ func (e *StochasticHeat) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..1086142 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -177,6 +177,7 @@ func (e *SuperTrend) AnalysisSide() utils.SideData {
 	sides := make([]utils.Side, len(e.data))
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index ff9f8e6..e20c934 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -112,6 +112,7 @@ func (e *UTBot) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var close = v.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index 629f303..4e1c340 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -105,6 +105,7 @@ func (e *MoneyFlowIndex) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
-- 
2.43.0


From 7df4fe6e4f2452c809c84f535999c9b24ae9abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 29/42] fix: WilliamsR is 0, not NaN, when the window has no
 range

---
 oscillator/WilliamsR.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index d17c5a2..ee50626 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -61,6 +61,9 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 	result := make([]float64, len(closing))
 
 	for i := 0; i < len(closing); i++ {
+		if highestHigh[i] == lowestLow[i] {
+			continue
+		}
 		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
 	}
 
-- 
2.43.0


From 2313be47723218b8f4a2016e8bf467dc579a7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 30/42] fix: the least squares line through a single point is
 flat, not NaN

---
 utils/regression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/regression.go b/utils/regression.go
index 6154ef0..055b2ea 100644
--- a/utils/regression.go
+++ b/utils/regression.go
@@ -21,6 +21,9 @@ func LeastSquare(x, y []float64) (float64, float64) {
 
 	n := float64(len(x))
 	m := ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+	if n == 1 {
+		m = 0
+	}
 	b := (sumY - (m * sumX)) / n
 
 	return m, b
@@ -58,6 +61,9 @@ func MovingLeastSquare(period int, x, y []float64) ([]float64, []float64) {
 		}
 
 		m[i] = ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+		if n == 1 {
+			m[i] = 0
+		}
 		b[i] = (sumY - (m[i] * sumX)) / n
 	}
 
-- 
2.43.0


From 5935932472a543bfb40576ecbbb8487c57babbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 31/42] fix: VolumePriceTrend of an empty history is empty
 instead of a panic

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index a487ab1..36b6ac3 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -44,6 +44,10 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	e.data = nil
 
+	if len(e.kline.Candles) == 0 {
+		return e
+	}
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
-- 
2.43.0


From 1f367f67bf2c9fe33f1151c94c56e389f2d7b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 32/42] fix: the Ichimoku conversion line takes highs over the
 conversion period, as it does lows

---
 oscillator/IchimokuCloud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 6f88fc1..fb5dd68 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -70,7 +70,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 	var closing = ohlc.Close
 
 	// 转换线
-	conversionLine := ta.DivideBy(ta.Add(ta.Max(9, high), ta.Min(conversionPeriod, low)), float64(2))
+	conversionLine := ta.DivideBy(ta.Add(ta.Max(conversionPeriod, high), ta.Min(conversionPeriod, low)), float64(2))
 	// 基线
 	baseLine := ta.DivideBy(ta.Add(ta.Max(26, high), ta.Min(26, low)), float64(2))
 	// 先行带A（Senkou Span A）：通过转换线和基线的移动平均值预计未来26日内趋势
-- 
2.43.0


From e3d374dad831904c4e95f85e52703a18012c5b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 33/42] fix: AwesomeOscillator is the difference of simple
 moving averages, as documented

---
 oscillator/AwesomeOscillator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index ed107df..f5681e2 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -41,8 +41,8 @@ func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 	var low = ohlc.Low
 
 	medianPrice := ta.DivideBy(ta.Add(low, high), float64(2))
-	sma5 := ta.Ema(5, medianPrice)
-	sma34 := ta.Ema(34, medianPrice)
+	sma5 := ta.Sma(5, medianPrice)
+	sma34 := ta.Sma(34, medianPrice)
 	ao := ta.Subtract(sma5, sma34)
 
 	for i := 0; i < len(ao); i++ {
-- 
2.43.0


From 1a1bd1e07a0833cb13c4d3422c351496d7900b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 34/42] fix: ConvertToNewInterval groups from the first candle
 when it is not on a boundary of the new interval

---
 utils/klines/kline.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index b7a4f84..e705e8e 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -79,24 +79,12 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
 	}
 
-	// 有的时候不取整，重新计算开始、结束时间
-	newIntervalRangeHolder, err := CalculateCandleDateRanges(start, end, newInterval, 100000)
-	if err != nil {
-		panic(err)
-	}
-
 	var target int
 
 	// 对要返回的数据时间先赋值，后面好计算
-	for _, rangeHolder := range newIntervalRangeHolder.Ranges {
-		for _, intervalsData := range rangeHolder.Intervals {
-			if target >= len(candles) {
-				break
-			}
-			candles[target] = &Candle{
-				TimeUnix: intervalsData.Start.Time.Unix(),
-			}
-			target++
+	for target = range candles {
+		candles[target] = &Candle{
+			TimeUnix: start.Add(time.Duration(target) * newInterval.Duration()).Unix(),
 		}
 	}
 
-- 
2.43.0


From 587a50b12e228169d325851bbbbe299ca6acb963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 35/42] fix: Kdj works for prices whose range is below 0.000001

---
 trend/Kdj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 372a34b..b7d33f2 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -171,7 +171,7 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 			lowest := e.arrayLowest(periodLowArr)
 			highest := e.arrayHighest(periodHighArr)
 
-			if highest-lowest < 0.000001 {
+			if highest == lowest {
 				rsv[i] = 100
 			} else {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
-- 
2.43.0


From d0546b1d0a8059a92bb9aea0f535570662c815d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 36/42] fix: Rsi works for average changes below 1e-14

---
 trend/Rsi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index 5a27cc9..c17b553 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -142,7 +142,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 	if today > 0 {
 
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 != 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
@@ -184,7 +184,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 		prevLoss /= float64(inTimePeriod)
 		prevGain /= float64(inTimePeriod)
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 != 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
-- 
2.43.0


From a85cb2979dd918b217f50e1f3fb0c93a3753a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 37/42] fix: StdDev works for deviations below 1e-7

---
 utils/ta/ta.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6896239..d2f75a9 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -1119,7 +1119,7 @@ func StdDev(inReal []float64, inTimePeriod int, inNbDev float64) []float64 {
 	if inNbDev != 1.0 {
 		for i := 0; i < len(inReal); i++ {
 			tempReal := outReal[i]
-			if !(tempReal < 0.00000000000001) {
+			if tempReal > 0 {
 				outReal[i] = math.Sqrt(tempReal) * inNbDev
 			} else {
 				outReal[i] = 0.0
@@ -1128,7 +1128,7 @@ func StdDev(inReal []float64, inTimePeriod int, inNbDev float64) []float64 {
 	} else {
 		for i := 0; i < len(inReal); i++ {
 			tempReal := outReal[i]
-			if !(tempReal < 0.00000000000001) {
+			if tempReal > 0 {
 				outReal[i] = math.Sqrt(tempReal)
 			} else {
 				outReal[i] = 0.0
-- 
2.43.0


From a624675c8637241ae963dc3356051e00eeb18329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 38/42] fix: window sums leave no rounding residue of values
 that left the window

---
 utils/ta/ta.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index d2f75a9..c24fcbf 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -968,10 +968,15 @@ func Sum(period int, values []float64) []float64 {
 	sum := 0.0
 
 	for i := 0; i < len(values); i++ {
-		sum += values[i]
-
-		if i >= period {
-			sum -= values[i-period]
+		if i < period {
+			sum += values[i]
+		} else {
+			// sum the window anew: a running difference leaves rounding residue,
+			// which quotients of sums (Vwma, CMF, MFI) blow up when the window is zero
+			sum = 0
+			for j := i - period + 1; j <= i; j++ {
+				sum += values[j]
+			}
 		}
 
 		result[i] = sum
-- 
2.43.0


From 9caa39af991e0911edbf24632f112d75803cbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 39/42] fix: SuperTrend bands without the ATR method are a
 price distance, not a percentage, from the middle

---
 trend/SuperTrend.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 1086142..cf0d526 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -95,8 +95,7 @@ func (e *SuperTrend) Calculation() *SuperTrend {
 	if e.ChangeAtr {
 		atr = ta.Atr(highs, lows, closes, e.AtrPeriod)
 	} else {
-		natr := ta.Natr(highs, lows, closes, e.AtrPeriod)
-		atr = ta.Sma(e.AtrPeriod, natr)
+		atr = ta.Sma(e.AtrPeriod, ta.TRange(highs, lows, closes))
 	}
 
 	for i := 0; i < len(src); i++ {
-- 
2.43.0


From d330801f1f0556aff98c74cbb457e65e3750170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:54 +0000
Subject: [PATCH 40/42] fix: Vortex leaves no rounding residue of candles that
 left the window

---
 trend/Vortex.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 6140ac6..8de84e3 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -55,26 +55,26 @@ func (e *Vortex) Calculation() *Vortex {
 	minusVm := make([]float64, period)
 	tr := make([]float64, period)
 
-	var plusVmSum, minusVmSum, trSum float64
-
 	for i := 1; i < len(high); i++ {
 		j := i % period
 
-		plusVmSum -= plusVm[j]
 		plusVm[j] = math.Abs(high[i] - low[i-1])
-		plusVmSum += plusVm[j]
-
-		minusVmSum -= minusVm[j]
 		minusVm[j] = math.Abs(low[i] - high[i-1])
-		minusVmSum += minusVm[j]
 
 		highLow := high[i] - low[i]
 		highPrevClosing := math.Abs(high[i] - closing[i-1])
 		lowPrevClosing := math.Abs(low[i] - closing[i-1])
 
-		trSum -= tr[j]
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
-		trSum += tr[j]
+
+		// sum the window anew: running differences leave rounding residue, which
+		// the quotients blow up when the window has no range
+		var plusVmSum, minusVmSum, trSum float64
+		for k := range tr {
+			plusVmSum += plusVm[k]
+			minusVmSum += minusVm[k]
+			trSum += tr[k]
+		}
 
 		if trSum == 0 {
 			continue
-- 
2.43.0


From 282c2a9c59deed05f485e331f93814c299fb7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:16 +0000
Subject: [PATCH 41/42] fix: HasDataAtDate finds the interval of a date within
 a second

---
 utils/klines/kline.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index e705e8e..f94e3ab 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -327,18 +327,17 @@ func CalculateCandleDateRanges(start, end time.Time, interval Interval, limit ui
 // HasDataAtDate determines whether a there is any data at a set
 // date inside the existing limits
 func (h *IntervalRangeHolder) HasDataAtDate(t time.Time) bool {
-	tu := t.Unix()
-	if tu < h.Start.Ticks || tu > h.End.Ticks {
+	if t.Before(h.Start.Time) || t.After(h.End.Time) {
 		return false
 	}
 	for i := range h.Ranges {
-		if tu < h.Ranges[i].Start.Ticks || tu >= h.Ranges[i].End.Ticks {
+		if t.Before(h.Ranges[i].Start.Time) || !t.Before(h.Ranges[i].End.Time) {
 			continue
 		}
 
 		for j := range h.Ranges[i].Intervals {
-			if tu >= h.Ranges[i].Intervals[j].Start.Ticks &&
-				tu < h.Ranges[i].Intervals[j].End.Ticks {
+			if !t.Before(h.Ranges[i].Intervals[j].Start.Time) &&
+				t.Before(h.Ranges[i].Intervals[j].End.Time) {
 				return h.Ranges[i].Intervals[j].HasData
 			}
 		}
-- 
2.43.0


From c514ba3adb5b762a6a9e80e85c9fe061fc9755d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:16 +0000
Subject: [PATCH 42/42] fix: RemoveOutsideRange respects bounds within a second

---
 utils/klines/kline.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index f94e3ab..fd1f807 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -161,7 +161,8 @@ func (e *Item) RemoveOutsideRangeCopy(start, end time.Time) *Item {
 func (e *Item) RemoveOutsideRange(start, end time.Time) {
 	target := 0
 	for _, keep := range e.Candles {
-		if keep.TimeUnix == start.Unix() || (keep.TimeUnix > start.Unix() && keep.TimeUnix < end.Unix()) {
+		at := time.Unix(keep.TimeUnix, 0)
+		if at.Equal(start) || (at.After(start) && at.Before(end)) {
 			e.Candles[target] = keep
 			target++
 		}
-- 
2.43.0

