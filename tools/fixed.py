import json,subprocess
L=[("C03","403580c","EnbPI.conformal_interval_from_residuals fails for batches of new points and changes the given residuals"),
("C02","cf736a4","CVPlusConformalRegressor.conformal_interval modifies the lists of its caller (a second call gives another answer)"),
("C05","3dbe9bd","conformal classification sets keep the labels with the largest, not the smallest, non-conformity scores"),
("C06","f3563ac","true_negative_coverage counts another region than the one whose precision is calibrated"),
("C07","52cee32","the patch of the round in which the loop converges is lost"),
("C07","3fcbc0f","apply_patches returns None when there are no patches and no initial values are given"),
("C07","6916ee4","the multicalibration loss of one-dimensional values is a sum, not a mean, of squares"),
("C09","b35280a","BatchMVP.calibration_error fails when thresholds is None, its default"),
("C08","19dde4e","one-shot patches of a value depend on the other values of its batch"),
("C10","c53d94e","the maximum calibration error weights the gaps by the bin counts and so is not the largest gap"),
("C12","d470afb","std with given variances does not return their square root"),
("C12","c903c6d","unknown credible interval types end in a TypeError instead of the documented ValueError"),
("C13","e27b516","unsupported auxiliary objects end in a TypeError instead of the documented AttributeError"),
("C13","f1af875","likelihood losses without output calibration manager ignore given outputs or fail with a mutable"),
("C14","501bf11","Predictive.sample fails with a random number generator key (ambiguous truth value)"),
("C14","79187ae","Predictive.sample joins batches along the sample axis and loses the auxiliary outputs over devices"),
("C14","4394b64","credible sets with error 0 contain only the most probable label"),
("C15","298e30d","TargetsLoader.from_data_loader returns a bare iterable without the methods of the loader"),
("C17","c2cfbfd","pull and update of a state stored in a checkpoint directory fail when the directory is given as path"),
("C17","d714b43","PosteriorMultiStateRepository.put without an index fails with an AttributeError"),
("C17","4f1f157","SGMCMC repository with a subset of parameters fails (NameError) when all states are read at once"),
("C17","aeecc95","save_state of deep ensembles and SGMCMC posteriors ignores the directory it is given"),
("C17","ebc7884","deep ensemble members starting from a preliminary MAP are trained by the optimizer of the MAP with a state of the configured one"),
("C18","9a326ed","the cosine burn-in schedule without burn-in gives a NaN step size at the first step"),
("C18","057375d","cyclical schedules accept an empty cycle and then only give NaN step sizes"),
("C18","cd2a1b0","keys handed out by the random number generator are the ones later keys are split from, so that receivers splitting them reuse later keys"),
("C13","4d09082","the output calibration loss fails with mutable None, its default"),
("C19", "0c80470", "SWAG trained on several devices fails or stores replicated statistics and loses the frozen parameters"),
("C19", "59d34d4", "SWAG weights the iterates of an epoch unequally with several batches per epoch"),
("C19", "af8c444", "restored paths of trainable parameters are in the wrong order beyond ten arrays"),
("C20", "fda67cc", "Laplace cannot tune the prior log-variance without distribution, on several devices or with a diagonal prior"),
("C20", "ca95e4e", "Laplace with a diagonal prior and frozen parameters fails on the shape of the prior"),
("C21", "c44b39f", "the regression model manager fails with mutable collections"),
("C22", "c3ba11c", "top-k probit scaling of final tokens reads the scales of another token"),
("C22", "bf50ec4", "probit scaling fails on parameters that are plain dictionaries"),
("C23", "63556f0", "get_trainable_paths fails without a freeze function"),
("C23", "e3dd080", "ADVI with frozen parameters starts from means and deviations of other arrays"),
("C24", "ed0b048", "the state of output calibrators is lost or fails between steps"),
("C24", "01239c4", "multi-device calibrators validate outputs against the targets of other points")]
rows=[json.loads(l) for l in open('/verif/known_findings.jsonl') if l.strip()]
rows=[r for r in rows if r["status"]!="fixed"]
with open('/verif/known_findings.jsonl','w') as f:
    for r in rows: f.write(json.dumps(r)+"\n")
    for p,c,w in L: f.write(json.dumps(dict(property=p,id="fixed-"+c,status="fixed",what=f"fixed: property={p} {c} {w}"))+"\n")
