import json,subprocess
m={'30f37dd':('C19','an optimization used the bounds and the sense of another one with the same problem'),
'6fb810d':('C22','the curves drawn by a plot that failed (file that can not be written, series of other length, labels missing) were on the next plot'),
'70bdb6d':('C14','times for the solution given as a list were refused by ODEINT'),
'8cb6cba':('C20','a package obtained by adding another one kept the number of phases of the first, so the units ignored the fractions'),
'31d677f':('C24','a stream without property package could not be declared once its temperature or pressure was specified'),
'4b354e1':('C20','a mixer or splitter without property package (the default) could not be created'),
'1b9479c':('C15','times_for_solution was ignored by differential-algebraic problems: the trajectories came on another grid'),
'a0bf9c9':('C14','an integration by ODEINT that stopped half-way (the solution explodes) was reported as successful, with uninitialised numbers for the remaining points'),
'2f8418d':('C03','an equation with a function of a known quantity that cancels inside Min or Max could not be evaluated'),
'd1138ec':('C08','incorporating equations without rewriting names failed'),
'5867ad1':('C07','the default arguments of one optimization were shared with the others'),
'8cee8f4':('C07','the default bounds of one domain were shared with the others'),
'0c30b20':('C07','the default mass fractions of one property package were shared with the others'),
'73e4230':('C07','a default configuration of one simulation was shared with the others'),
'9657ed0':('C19','saving the graph of an optimization without log failed'),
'd8bc668':('C19','the log of a maximization had the opposite of the objective'),
'b51144c':('C19','constraints given as a dictionary failed'),
'3ad1593':('C19','the neighborhood configured for particle swarms was ignored'),
'eb15f82':('C19','differential evolution failed when reports were asked for'),
'3336e79':('C03','Min or Max of a known expression that vanishes was refused'),
'b479566':('C12','a linear problem with Min or Max of specified integers could not be solved by the sympy solver'),
'735722f':('C11','a specified variable that occurs in the equations was counted and given to the solver as an unknown'),
'24dfdbd':('C14','compiled differential equations with Min or Max failed'),
'04757e4':('C13','an overflow of the residuals was reported as a root'),
'a263111':('C13','nonlinear problems containing Abs of an unknown failed'),
'b479859':('C12','the default solver of linear problems refused the solution it had found, its tolerance being out of reach of floating point'),
'7443d6e':('C11','objects declared (or declared again) after addModels were missing or stale: wrong degrees of freedom'),
'9055d09':('C03','an equation whose arguments of Min or Max cancel out failed to evaluate'),
'1a19fc4':('C03','the base of Log10 was left unevaluated, so equations using it did not evaluate'),
'5bebfa6':('C14','compiling an equation block failed on the list of expressions it built (lambdify of a numpy object)'),
'73118b0':('C15','initial derivatives and algebraic flags were paired with other variables when declared in another order'),
'bbfd766':('C14','trajectories were registered under the column of another variable'),
'b07a4d4':('C14','CVODE started at 0 whatever the initial time configured'),
'15b3ae4':('C07','the default list of argument names was shared between simulations'),
'4692c29':('C15','a DAE failed with the list of time variable names that the problem itself stores'),
'ebf5ca7':('C16','appending values to a domain replaced the names of its columns'),
'e0380d4':('C03','evaluating an equation without values failed instead of using those of its quantities'),
'1e811f6':('C06','the objects declared by an equation were forgotten when an equation had sides (specified objects escaped the check of undeclared objects)'),
'a750cdf':('C02','the transcendental functions failed on plain numbers'),
'd4e5d39':('C02','Min and Max accepted different dimensions and were called linear'),
'6ef3a9f':('C05','the division by an unknown was classified as linear'),
'd0b44f2':('C05','products, quotients and functions of a derivative were not classified as differential'),
'6274acc':('C02','a power with a specified quantity as exponent kept the unit of the base'),
'f97e904':('C05','a derivative in an exponent was not classified as differential'),
'09a615a':('C04','a float with an incoherent unit was accepted, or refused with a coherent one'),
'4a44123':('C23','arithmetic of quantities failed (missing name) and division was not available'),
'29f0b58':('C07','models and unit operations created with default ports shared them'),
'd15e89d':('C08','an incorporated exposed variable was registered under a fixed type'),
'301044b':('C08','incorporating an equation with a number on one side failed'),
'd3e4c68':('C10','reporting non-exposed variables given in a list failed instead of raising the error'),
'f6c4123':('C10','a second connection of expressions between the same two models replaced the first'),
'1a2d497':('C11','a declared variable was looked for as a substring of the equation, changing the degrees of freedom'),
'5a79218':('C19','bounds and sense given to the optimization problem were ignored'),
'e530197':('C19','maximization minimized the objective'),
'7fd0712':('C12','the scipy solver of linear problems failed'),
'8763ca3':('C13','the minimum of the residuals was reported as a root'),
'efee293':('C22','plotting without labels failed'),
'a40c838':('C12','in the elementary form only one side of the algebraic equations was solved'),
'54d1329':('C07','property packages created with default phase names shared them'),
'258f326':('C05','Min and Max of a derivative were not classified as differential')}
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h','6132d8d..HEAD'],text=True).split()
out={'findings':[],'fixed':['fixed: property=%s %s %s'%(m[h][0],h,m[h][1]) for h in log]}
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
