"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))


F = 'pyforecaster/formatter.py'
FC = 'pyforecaster/forecaster.py'
SG = 'pyforecaster/scenarios_generator.py'
SR = 'pyforecaster/scenred.py'
TB = 'pyforecaster/tree_builders.py'
HW = 'pyforecaster/forecasting_models/holtwinters.py'
FA = 'pyforecaster/forecasting_models/fast_adaptive_models.py'
NN = 'pyforecaster/forecasting_models/neural_models/'

p('C01', 'Engineered columns carry the declared statistic of the declared window',
  'For every declared combination of source columns, statistics, aggregation length (or aggregation bins), lags and relative lags, each engineered feature or target value at time t equals the named statistic of exactly the raw samples that lie in the declared window relative to t (positive lag = past, negative lag = future), under the documented column name. Whenever a window is not completely covered by the data the value is missing, never computed from a partial window, and the raw columns and the caller\'s frame are unchanged.',
  ['inputs', 'configurations'],
  'all small combinations of names x functions x agg length (none/str/int steps) x lag lists x relative lags x nested and non-nested bins x series length x gaps x dt given or inferred',
  'tests run transform on one or two configurations and mostly print the result; off-by-one windows, swapped functions or lags in the other configurations are never compared with a reference value',
  [F], [('rolling window + shift in Transformer.transform', F), ('Reducer / agg_bins sub-transformers', F)],
  ['Transformer.transform', 'Formatter.transform'])

p('C02', 'Feature metadata is truthful and features never look ahead',
  'For every engineered feature and target, the published metadata (source name, lag, function, start and end time relative to the prediction time) describes exactly the raw samples that can influence its value: changing a raw sample changes only columns whose published window contains that sample, and each sample in the window can influence it. In particular a feature whose published window ends at or before the present is never influenced by a later sample.',
  ['inputs', 'configurations'],
  'every (engineered column, row, single-sample perturbation) triple over all small feature configurations, and every row of the metadata table',
  'information leakage does not change shapes or raise, so tests that run the pipeline pass; only perturbing every sample for every configuration reveals it',
  [F], [('metadata_n construction in Transformer.transform', F)], ['Transformer.metadata', 'Formatter.get_time_lims'],
  state=[('metadata', 'lag/start/end of every engineered column', F)])

p('C03', 'Dataset rows: features and targets are aligned and complete',
  'The feature table and target table returned for a raw series have the same index, contain no missing engineered feature or target, and contain every raw timestamp whose feature and target windows are completely covered by the data and no other. At prediction time (targets not requested) every timestamp with complete feature windows is kept, including the most recent one, and with augmentation off only engineered (plus calendar) columns are returned.',
  ['inputs', 'configurations'],
  'all small combinations of feature and target transforms, series lengths, positions of missing raw samples, augment on/off, target requested or not, serial or threaded evaluation',
  'tests only assert shapes on one long clean series; an extra or missing row at the borders or beside a gap is invisible there',
  [F], [('NaN-row filtering in Formatter._transform', F)], ['Formatter.transform'])

p('C04', 'Feature engineering is independent of call history and execution mode',
  'Columns, values and metadata produced for a frame do not depend on what the formatter was used for before: a fresh formatter, one that already transformed other frames of the same sampling rate, one that was only dry-run, a pickled copy, and threaded versus serial evaluation all give the same result for the same frame. A dry run publishes exactly the metadata that the real transform publishes.',
  ['histories', 'configurations', 'schedules'],
  'all call sequences up to a depth over {dry-run, transform frame A, transform frame B, target-less transform, deep copy, pickle} for each small configuration; serial and threaded evaluation orders',
  'tests call transform once per formatter; state that the first call leaves behind is only visible on the second',
  [F], [('agg_freq resolution, metadata and sub-transformers kept on self', F), ('_simulate_transform', F)],
  ['Transformer.transform', 'Formatter.transform', 'Transformer.metadata'],
  state=[('agg_freq', 'rewritten on first use', F), ('metadata', 'rebuilt on each call', F)])

p('C05', 'Calendar features equal local wall-clock facts of each row',
  'The hour, day-of-week, minute-of-day and UTC-offset features of each row equal the local wall-clock facts of that row\'s timestamp, across daylight-saving changes, and the set of calendar columns stays the one fixed by the first call of the formatter, so that training and prediction frames have the same columns. Holiday features mark every official holiday of the requested country with the holiday code, and never mark an ordinary working day away from any holiday.',
  ['inputs', 'histories'],
  'all hours around both daylight-saving changes and year ends for several zones and sampling rates, all two/three-call histories mixing naive and localized frames, every day of whole years for several countries',
  'tests assert column names on one series; DST hours, naive/localized histories and year-end holidays are not visited',
  [F], [('Formatter.add_time_features', F), ('Formatter.add_holidays', F)], ['Formatter.transform'],
  state=[('timezone', 'remembers whether the first frame was localized', F)])

p('C06', 'Time-series folds never leak: train and test separated by the deadband',
  'For every number of folds and multiplier, each fold\'s training rows are exactly the rows farther from the test window than the deadband, the largest absolute start offset of the engineered feature windows, so no training row overlaps the test window and, with past-looking features, none shares raw samples with it through a feature window; the test windows all have the same time span and together they cover the whole series. When the deadband does not fit in a fold the split is refused rather than silently leaking.',
  ['inputs', 'configurations'],
  'all (series length, number of folds, multiplier, feature window set) combinations within bounds, regular and gappy indices',
  'tests plot one fold configuration; leakage by one sample at the fold border, or a hole in test coverage, never fails an assertion',
  [F], [('Formatter.time_kfcv', F)], ['Formatter.time_kfcv', 'Formatter.print_fold'])

p('C07', 'Step-ahead pruning keeps exactly the features the rule selects',
  'For every step ahead, selecting features by period keeps exactly the engineered features whose window start (or end) lies a whole number of periods (within tolerance, modulo the period) from the target window, and the "up to" rule keeps exactly features whose window ends no later than the target window ends; the "keep last lags/seconds" options only add the requested recent features. Bypass columns are always kept, no feature is duplicated or invented, the values are those of the original table, and published time limits are the extremes of the feature windows.',
  ['configurations', 'inputs'],
  'all small feature sets x all targets steps x methods x periods x tolerances x keep-last settings',
  'tests call the method on one configuration and check shapes only',
  [F], [('Formatter.prune_dataset_at_stepahead', F), ('Formatter.get_time_lims', F)],
  ['Formatter.prune_dataset_at_stepahead', 'Formatter.get_time_lims'])

p('C08', 'Target normalization round-trips exactly',
  'Normalizing targets with the declared expression applies that expression, with the normalizers computed at the same row from the declared past windows, to every target column (and to related features), and de-normalizing with the inverse expression restores the original values for every row, step ahead and quantile. The caller\'s tables are not altered and index and columns are preserved.',
  ['inputs', 'configurations'],
  'all combinations of normalizer kinds, invertible expression pairs, numbers of steps and targets, plain and quantile tables, small value grids',
  'tests run a single normalizer on a single table; wrong row/quantile pairing cancels in smoke assertions',
  [F], [('Formatter.normalize / denormalize / normalize_target_inner', F)], ['Formatter.transform', 'Formatter.denormalize'])

p('C09', 'Global-model stacking is lossless and order preserving',
  'Stacking independent series into one global dataset yields, for each series, exactly the rows, features and targets that transforming this series alone (with the shared covariates) would yield, tagged with the series name, with no row lost, duplicated or attributed to another series. Correlation re-ordering only permutes values within a feature group (at prediction time: for a single series, the same way as in training).',
  ['inputs', 'configurations', 'histories'],
  'all small sets of series (1..3), shared and private covariates, flat and two-level column layouts, memory reduction and re-ordering on/off, training followed by prediction',
  'tests check one layout and only shapes',
  [F, 'pyforecaster/big_data_utils.py'], [('global_form_preprocess / global_form_postprocess', F)], ['Formatter.transform(global_form=True)'])

p('C10', 'Calibrated quantiles equal the held-out residual quantiles around the forecast',
  'A fitted (non-recursive) probabilistic forecaster trains only on the leading part of the data and calibrates on the trailing validation part (in time order, no row in both); for each row, step and probability level the predicted quantile equals the point forecast plus the empirical validation-residual quantile of that step for the row\'s hour of day, or of all hours when not every hour is represented or hour-conditioning is off. Predicted quantiles are non-decreasing in the level, and array and table forms of the same prediction contain the same numbers under the right (target, level) labels.',
  ['inputs', 'configurations'],
  'all validation ratios, series lengths (including ones with missing hours), numbers of targets and levels, hour conditioning on/off, for each forecaster family',
  'tests print scores of one model; a swapped level/step axis, a wrong hour bucket or a leaked validation row still gives plausible numbers',
  [FC, FA, HW, 'pyforecaster/forecasting_models/randomforests.py', 'pyforecaster/forecasting_models/gradientboosters.py'],
  [('ScenarioGenerator._estimate_err_distr / train_val_split / quantiles_to_df / quantiles_to_numpy', FC), ('_predict_quantiles of each forecaster', FC)],
  ['fit', 'predict', 'predict_quantiles'],
  state=[('err_distr', 'per-hour residual quantiles', FC)])

p('C11', 'Calibration subsampling keeps x and y paired and bounded',
  'When the number of calibration rows is limited, the selected feature and target rows are the same, distinct, existing validation rows in time order, exactly the requested number, and when stratifying the hours of day are drawn in proportion to their share; a limit not smaller than the data changes nothing. The selection is a deterministic function of the explicit seed (or else of a positive integer random_state) and does not disturb global randomness, and invalid limits are rejected at construction.',
  ['inputs', 'configurations'],
  'all limits (counts and fractions) x series lengths x hour layouts (incl. duplicated and shuffled timestamps) x stratification on/off x seeds within bounds',
  'tests sample a few limits; the rounding of per-hour quotas and the unlucky sizes are not enumerated',
  [FC], [('_maybe_subsample_for_scengen, _subsample_*', FC), ('_validate_max_scengen_rows', FC)], ['fit', 'constructor'])

p('C12', 'Categorical encoding is consistent between training and prediction',
  'A categorical value seen at training time is always presented to the model as the same number at prediction time, distinct values as distinct numbers, regardless of order, subset or repetition of predictions; unseen values and missing categorical columns are reported rather than silently mis-encoded. Encoding the categorical columns of a table keeps their values and gives each row the code of its own value. Non-categorical data passes through unchanged.',
  ['histories', 'inputs'],
  'all histories of fit/predict/refit up to a depth over all small category alphabets and column types',
  'no stable test covers encoding; a re-fitted encoder at prediction gives valid looking but permuted codes',
  [FC], [('encode_categorical', FC)], ['fit', 'predict'], state=[('encoders', 'per-column encoder', FC)])

p('C13', 'Refitting and predicting leave no trace of earlier calls',
  'A forecaster fitted twice predicts exactly like a new forecaster fitted once on the last data, and prediction is a pure function: repeating it, interleaving other predictions (points, quantiles, scenarios with the same seed), or predicting rows separately gives the same numbers. Inputs passed to fit and predict are never modified. This includes the baselines and the networks.',
  ['histories'],
  'all operation sequences up to a depth over {fit A, fit B, predict C, predict D, quantiles, copy} for each non-recursive forecaster family, the baselines and the networks',
  'tests fit each model once; accumulation across fits and hidden state across predictions need a second call',
  [FC, 'pyforecaster/forecasting_models/randomforests.py', 'pyforecaster/forecasting_models/gradientboosters.py', 'pyforecaster/forecasting_models/random_fourier_features.py'],
  [('fit/predict of each forecaster', FC)], ['fit', 'predict', 'predict_quantiles'])

p('C14', 'Sampled scenarios are reproducible and follow the given marginals',
  'Scenarios drawn for a forecast are a deterministic function of fitted model, inputs and seed, keep the order of rows and steps, and each scenario value lies on the interpolated quantile curve of its own row and step at the sampled probability level; with the sample covariance the copula reproduces the rank dependence of the calibration errors of that hour only. With an initial observation requested, the first node equals that observation.',
  ['inputs', 'configurations', 'histories'],
  'all small (rows, steps, levels, scenario count, seed, initial observation) configurations with probe copulas whose samples are known',
  'tests only inspect shapes/plots; a transposed axis or another row\'s quantiles stays plausible',
  [SG, 'pyforecaster/copula.py', FC], [('ScenGen.predict_scenarios / sample_scenarios / interp_scens', SG), ('HourlyGaussianCopula.fit/sample', 'pyforecaster/copula.py')],
  ['predict_scenarios', 'ScenGen.sample_scenarios'])

p('C15', 'Scenario reduction yields a proper probability tree over real scenarios',
  'Reducing any set of equiprobable scenarios yields, at every step, non-negative probabilities that sum to one, the requested number of nodes when node counts are given, node values that are the value of an actual input scenario at that step, and a parent relation in which every node\'s probability equals the sum of its children\'s and every node\'s history is shared by its descendants. The input samples and the requested node counts are left unchanged.',
  ['inputs', 'configurations'],
  'all sample sets over small value grids with 2..4 scenarios and 2..4 steps, all admissible node vectors, several tolerances, one and two variables, all metrics',
  'tests run random samples and plot; mass leaks in ties, identical scenarios and unusual node vectors are not visited',
  [SR], [('scenred, get_network', SR)], ['scenred', 'get_network', 'retrieve_scenarios_indexes'])

p('C16', 'Scenario trees stay valid trees through fitting, prediction and superposition',
  'Every tree produced (reduced, quantile, neural-gas or gradient fitted, pre-fitted and predicted online or offline; for the quantile builder with dividing node counts) is a rooted tree with the requested number of nodes per step, one parent per node one step earlier, probabilities summing to one at every step and equal to the sum over children. Predicting with a pre-fitted tree adds the forecast of the right row, step and hour to a copy of it, so results do not depend on previous predictions and the stored tree never changes.',
  ['inputs', 'configurations', 'histories'],
  'all builders x node vectors x small scenario sets; all sequences of online/offline predictions up to a depth over two rows',
  'tests plot the trees; shared mutation between consecutive predictions needs at least two calls and a comparison',
  [TB, SG, SR], [('ScenarioTree.gen_tree/init_vals', TB), ('ScenGen.predict_trees/tree_gen', SG), ('superimpose_signal_to_tree', SR)],
  ['predict_trees', 'ScenarioTree.gen_tree'])

p('C17', 'Forecast scores equal their definitions under any grouping',
  'Point scores, quantile (pinball) scores, CRPS, reliability and their summaries equal their textbook definition computed element by element for every shape of input, with targets, quantile levels and aggregation groups each kept in their own slot, and masks excluding exactly the masked entries. Scoring never alters the data being scored, and a perfect forecast scores zero.',
  ['inputs', 'configurations'],
  'all value assignments over a small grid for 1..3 rows x 1..3 targets x 1..3 levels, all groupings, array and table inputs',
  'tests compare a handful of numbers with themselves; axis mix-ups need unequal sizes, tie values and multi-level groupings',
  ['pyforecaster/metrics.py'], [('quantile_scores, crps, reliability, summary_scores', 'pyforecaster/metrics.py')],
  ['rmse', 'mape', 'nmae', 'quantile_scores', 'crps', 'reliability', 'summary_score', 'summary_scores'])

p('C18', 'Cross-validation and tuning score each model only on held-out rows',
  'In cross-validation every fold trains a fresh model on exactly that fold\'s training rows and predicts exactly its test rows, with the fold\'s predictions compared with the true targets of the same rows; the reported score is the mean over the evaluated folds. Tuning returns the parameters of the best trial in the score\'s direction, and retrieval lists every trial ranked by its score with the spread of its own folds. The caller\'s data are not changed, the model given to cross-validation is not changed, and parameters unknown to the model are refused.',
  ['inputs', 'configurations', 'histories'],
  'all small fold masks, scores, all/one-fold strategies, storage functions, with a recording model that logs every row it is given',
  'tests only run the optimizer end to end and look at plots',
  ['pyforecaster/trainer.py'], [('cross_validate, hyperpar_optimizer, retrieve_cv_results', 'pyforecaster/trainer.py')],
  ['cross_validate', 'hyperpar_optimizer', 'retrieve_cv_results'])

p('C19', 'Exponential smoothing state is exact under any chunking of the data',
  'For every observation sequence, the forecasts and internal state after feeding the data in any sequence of consecutive chunks are identical to feeding it all at once, equal the textbook seasonal recursion, and a forecast for a row uses no observation after it. Missing observations at prediction time leave the state finite, saving and restoring the state resumes identically, fitting again equals a fresh fit, re-initialisation equals replaying the last season from the current state, and a multi-model forecaster takes each step from the sub-model in charge of it.',
  ['histories', 'inputs', 'configurations'],
  'all compositions (chunkings) of series up to length 6-8, all placements of missing values, all seasonalities/trend/step settings within bounds, save/restore/re-init at every point of the history',
  'the stable suite has no exponential smoothing test at all (data file missing)',
  [HW], [('HoltWinters.run / predict / reinit / get_states / set_states', HW), ('HoltWintersMulti', HW)],
  ['HoltWinters.fit', 'HoltWinters.predict', 'hankel'], state=[('a,b,s1,s2', 'level, trend and seasonal states', HW)])

p('C20', 'Online adaptive forecasters are causal and keep their state honestly',
  'For the basis-function and Kalman forecasters, forecasts of a row never depend on later rows, forecasting never changes the stored state, and re-initialising followed by fitting equals a fresh fit. Pickling or copying a fitted forecaster yields one that predicts the same, the predicted quantiles follow the point forecast of the same row, expert mixtures stay within the hull of their experts, repeating signals are forecast exactly, and flat signals give finite forecasts.',
  ['histories', 'inputs'],
  'all operation sequences up to a depth over {fit, predict A, predict B, quantiles, copy, pickle, reinit} and every single-row perturbation',
  'the stable suite has no test for these models',
  [FA, 'pyforecaster/forecasting_models/statsmodels_wrapper.py', 'pyforecaster/utilities.py'],
  [('StatefulForecaster.run, Fourier_es, FK, FK_multi', FA), ('kalman', 'pyforecaster/utilities.py')],
  ['fit', 'predict', 'predict_quantiles', 'pickle'], state=[('states', 'adaptive coefficients and covariances', FA)])

p('C21', 'Baselines repeat the right past value and empirical distribution',
  'The persistence forecast of every step equals the last observed target, the seasonal persistence equals the target one season before the forecasted step, and the empirical-distribution baseline gives the frequencies of the training values seen at the row\'s time of day and their mean, for every row and step with labels preserved.',
  ['inputs', 'configurations'],
  'all series lengths, numbers of steps and season lengths within bounds with all-distinct values',
  'the stable suite has no test for the baselines',
  ['pyforecaster/forecasting_models/benchmarks.py'], [('Persistent, SeasonalPersistent, DiscreteDistr', 'pyforecaster/forecasting_models/benchmarks.py')],
  ['predict', 'predict_quantiles'])

p('C22', 'Reconciled forecasts are coherent and unbiased for any hierarchy',
  'For every hierarchy, step ahead and method, in each reconciled point forecast every aggregate equals the sum of the bottom series below it; forecasts that are already coherent are returned unchanged by the projection methods, and each number is reported under its own series, step and time whatever the column order of the inputs. The summation structure matches the declared hierarchy exactly.',
  ['inputs', 'configurations'],
  'all rooted hierarchies up to 5-6 nodes, all column permutations for small ones, all methods, 1..3 steps',
  'tests use one hierarchy with matching column order and check that code runs',
  ['pyforecaster/reconciliation/reconciliation.py'],
  [('get_summation_matrix, fit_reconciliation, reconcile', 'pyforecaster/reconciliation/reconciliation.py')],
  ['HierarchicalReconciliation.fit/predict/compute_kpis'])

p('C23', 'Memory reduction and parallel mapping never change the data',
  'Reducing memory keeps every integer, boolean, text, category and missing value exactly and every float within single precision, with shape, index and columns unchanged; splitting a table and mapping a function over the pieces (serially or in parallel, as tables or arrays) returns every piece exactly once in the original order.',
  ['inputs', 'configurations', 'schedules'],
  'all dtypes x boundary values of every integer width x missing values; all (length, number of pieces) pairs; all completion orders of the workers',
  'tests check that memory shrinks on random floats; type boundaries and completion order are not enumerated',
  ['pyforecaster/big_data_utils.py'], [('reduce_mem_usage*, fdf_parallel, array_split, mapper', 'pyforecaster/big_data_utils.py')],
  ['reduce_mem_usage', 'fdf_parallel'])

p('C24', 'Direct multi-step models predict each step with its own model and features',
  'In forecasters with separate models for the first steps and a joint one for the remaining steps, the forecast of step k is produced by a model trained on target k with the features selected for k, and is placed in the column of step k, for every split of single and joint steps; quantile outputs put level and step on the right axes. The parallel prediction path gives the same result as the serial one under every completion order.',
  ['configurations', 'schedules', 'inputs'],
  'all (number of steps, number of single-step models) pairs within bounds, with and without feature pruning, serial and threaded with every completion order of up to 4 workers',
  'the stable suite only constructs the forest once on random data and never checks which column is which',
  ['pyforecaster/forecasting_models/randomforests.py', 'pyforecaster/forecasting_models/gradientboosters.py', FC],
  [('QRF.fit/predict', 'pyforecaster/forecasting_models/randomforests.py'), ('LGBMHybrid, LGBMRobust', 'pyforecaster/forecasting_models/gradientboosters.py'), ('LGBForecaster', FC)],
  ['fit', 'predict', 'predict_quantiles'])

p('C25', 'Numerical helpers equal their definitions',
  'Table/tensor conversions are mutually inverse with every number keeping its (row, target, level) label; the Hankel embedding places sample i+j at row i, step j and never mixes future into past; the Kalman filter and predictor equal the textbook recursion; the bootstrap resamples only existing rows and reports statistics of those rows; dominant frequencies are those of largest spectral amplitude.',
  ['inputs', 'configurations'],
  'all small shapes, multi-index layouts, window lengths and step counts; small integer system matrices for the filter',
  'tests only exercise the bootstrap on one sample',
  ['pyforecaster/utilities.py', 'pyforecaster/stat_utils.py', HW],
  [('from_tensor_to_pdmultiindex, convert_multiindex_pandas_to_tensor, kalman, find_most_important_frequencies', 'pyforecaster/utilities.py'), ('bootstrap', 'pyforecaster/stat_utils.py'), ('hankel', HW)],
  ['the functions themselves'])

p('C26', 'Invertible network layers are exact and causal inverses',
  'Every invertible layer and the invertible network satisfy inverse(forward(x)) = x and forward(inverse(z)) = z for all admissible inputs and parameters, and each output of a causal layer depends only on inputs up to its own position.',
  ['inputs', 'configurations'],
  'all inputs on a grid that straddles every branch threshold, widths 1..4, several parameter sets incl. extreme ones; every (output, input) dependency pair',
  'the stable suite has no test of the invertible layers (data file missing)',
  [NN + 'layers.py', NN + 'INN.py'], [('layers and their inverse', NN + 'layers.py')], ['forward/inverse of the layers'])

p('C27', 'Partially convex networks are convex in the controls for all weights reachable',
  'For the input-convex forecasters (PICNN without output bounds, recursively stable PICNN, with or without augmented controls, probabilistic means) every output is convex in the control inputs on every segment, for all weights that initialisation and training with reprojection can produce and after every training step and re-fit. With output bounds outputs stay within them; sigmoid and structured variants are monotone in the controls; outputs of the input-quasi-convex variant are smallest without controls; the latent variant has convex encoder and prediction and a convex, monotone decoder. Optimized controls minimise the stated objective on the current weights, and the causal loss penalises exactly the forbidden dependencies.',
  ['inputs', 'histories'],
  'all sign patterns of the weight tensors of small networks x all segments between points of a control grid x covariates; every prefix of a short training history and a re-fit, for every variant',
  'the stable suite has no test of these networks; convexity on a sample of points after one training run does not settle it',
  [NN + 'ICNN.py', NN + 'neural_utils.py', NN + 'layers.py'], [('reproject_weights after each update', NN + 'neural_utils.py'), ('PICNNLayer and the modules', NN + 'layers.py')], ['fit', 'predict', 'optimize'],
  state=[('pars', 'network weights', NN + 'base_nn.py')])

p('C28', 'Saved networks reload to the same forecaster',
  'A fitted network forecaster that is saved and loaded, into a new instance or into an existing one of another configuration, predicts the same forecasts, standard deviations, quantiles, scenarios and controls as the original, with the same parameters, at any point of a history of fits, saves and loads; saving does not change it, a loaded one is saved and trained again like the original. A file truncated by a crash while saving is refused, leaving the model in memory as it was, and never loaded as a different model.',
  ['histories', 'crash_points'],
  'all operation sequences up to a depth over {fit A, fit B, save 1, save 2, load into new / existing / differently configured}; every truncated prefix and zero filled tail of the saved file; every class variant',
  'the stable suite has no persistence test for these models',
  [NN + 'base_nn.py', NN + 'ICNN.py', NN + 'INN.py'], [('NN.save/load, class properties', NN + 'base_nn.py')], ['save', 'load', 'predict'])

p('C29', 'Configured parameters are the ones in force, however they were set',
  'A forecaster constructed with given parameters, one whose parameters were set afterwards (as tuning does), and one cloned, copied or rebuilt from its reported parameters (as cross-validation does) give the same forecasts and quantiles after the same fit, and the hyperparameters of the batch models have an effect. The scenario settings (number of scenarios, additional root node, nodes per step) given at construction or afterwards are the ones applied. A forecaster that tunes itself keeps the parameters its search does not cover. Hence the configuration scored in a fold or trial is the configuration asked for.',
  ['configurations', 'histories'],
  'all single values and pairs of alternative values of the parameters of every forecaster family x all ways of configuring them, before and after a first fit',
  'tests tune a model end to end and look at plots; a parameter frozen at construction or lost by cloning gives valid looking but identical trials',
  [FC, 'pyforecaster/trainer.py', 'pyforecaster/forecasting_models/randomforests.py', 'pyforecaster/forecasting_models/gradientboosters.py', 'pyforecaster/forecasting_models/random_fourier_features.py',
   'pyforecaster/forecasting_models/holtwinters.py', 'pyforecaster/forecasting_models/fast_adaptive_models.py'],
  [('get_params / set_params', FC), ('qrf_pars', 'pyforecaster/forecasting_models/randomforests.py')], ['set_params', 'get_params', 'fit', 'cross_validate'])

p('C30', 'Network forecasts are in the units and labels of the targets',
  'A network forecaster returns, for every row, the output of its network on the inputs normalized with the statistics of the training table (only the columns to be normalized), transformed back to the units of each target and labelled with its index and column; it does not depend on the other rows and leaves the caller table alone. Quantiles are mean plus normal quantiles of the predicted deviation, or forecast plus hourly quantiles of the validation errors; changing the units of the targets changes forecasts accordingly. Training presents each training row at most once per epoch with its own targets, never a validation row, stops and selects weights by the stated early stopping rule, and minimises the loss requested; parameters set, cloned or constructed give the same network. The sequence model aligns history, exogenous inputs and targets in time.',
  ['configurations', 'inputs', 'histories'],
  'all class variants x normalization options x row subsets; all histories of validation losses up to a length for the stopping rule; all small window geometries; all single parameter changes x ways of configuring',
  'the stable suite has no reliable test of the networks (data files missing); numbers in wrong units or aligned with wrong times still look like forecasts',
  [NN + 'base_nn.py', NN + 'ICNN.py', NN + 'INN.py', NN + 'LSTM_bidir.py'],
  [('NN.fit/predict/predict_quantiles/get_normalized_inputs, probabilistic_loss', NN + 'base_nn.py'), ('PICNN.get_normalized_inputs, StructuredPICNN', NN + 'ICNN.py'), ('LSTM_Forecaster', NN + 'LSTM_bidir.py')],
  ['fit', 'predict', 'predict_quantiles'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    print(len(P))
