static const LD RC[3][32]={{0.386L,0.21L,0.63L,0.25L,-0.1043L,0.1035L,-0.03620000000000023L,1.544L,0.9466785280815826L,0.2557011698983284L,3.314825187068521L,2.896124015972201L,0.9986419139977817L,1.221224509226641L,6.019134481288629L,12.53708332932087L,-0.687886036105895L,-5.6688L,-2.430093356833875L,-0.2063599157091915L,-0.1073529058151375L,-9.594562251023355L,-20.47028614809616L,7.496443313967647L,-10.24680431464352L,-33.99990352819905L,11.7089089320616L,8.083246795921522L,-7.981132988064893L,-31.52159432874371L,16.31930543123136L,-6.058818238834054L},
{0.3507221L,0.2557041L,0.681779L,0.25L,-0.06902209999999998L,-0.0009671999999999459L,-0.08797900000000025L,1.4028884L,0.6581212688557198L,-1.320936088384301L,7.131197445744498L,16.02964143958207L,-5.561572550509766L,22.73885722420363L,67.38147284535289L,-31.2187749303856L,0.7285641833203814L,-5.1043536L,-2.899967805418783L,4.040399359702244L,-32.64449927841361L,-99.35311008728094L,49.99119122405989L,-76.46023087151691L,-278.5942120829058L,153.9294840910643L,10.97101866258358L,-76.29701586804983L,-294.2795630511232L,162.0029695867566L,23.6516690309527L,-7.652977706771382L},
{0.75L,0.21L,0.63L,0.25L,-0.5L,-0.023504L,-0.0362L,3.0L,1.831036793486759L,0.4955183967433795L,2.304376582692669L,-0.05249275245743001L,-1.176798761832782L,-7.170454962423024L,-4.741636671481785L,-16.31002631330971L,-1.062004044111401L,-12.0L,-8.791795173947035L,-2.207865586973518L,10.81793056857153L,6.780270611428266L,19.5348594464241L,34.19095006749676L,15.49671153725963L,54.7476087596413L,14.16005392148534L,34.62605830930532L,15.30084976114473L,56.99955578662667L,18.40807009793095L,-5.714285714285717L}};
