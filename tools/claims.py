NA = {}
claim('C01')
claim('C02')
claim('C03')
claim('C04')
claim('C05')
claim('C08')
claim('C09')
claim('C10')
claim('C11')
claim('C12', note='Simplex points for every dimension (simplex_any); n <= 3 symbolic and n <= 13 concrete runs are companions.')
claim('C13')
claim('C14', note='Banks of any size (any_size contracts); the 2..4 filter contracts are bounded companions.')
claim('C15', note='Banks of any size (any_size contracts); the 1..4 filter contracts are bounded companions.')
claim('C16')
claim('C18')
claim('C19')
claim('C20')
claim('C21', note='Every order, dimension and number of blocks by the *_any contracts; orders 3..6, dims 1..3 and 2..4 blocks are bounded companions.')
claim('C22')
claim('C23')
claim('C24')
claim('C25', note='NEES for any number of epochs and gaussian on any number of points (nees_any, gaussian_any); 1..3 epochs and 1..4 points are bounded companions.')
claim('C26', note='to_array and compare_kf by concrete runs; the history contract covers up to 4 saves, the step contract carries the induction.')
claim('C27', note='inv_diagonal for every size (diagonal_inverse_any); sizes 1..5 are a bounded companion.')
claim('C06')
claim('C07')
claim('C17', note='Loop over the lag by iteration symbols (vf/lag.py); whole random sequences also run on the real code.')
