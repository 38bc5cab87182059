---------------------------- MODULE Log2Table ----------------------------
(***************************************************************************)
(* LG[k] = log2(k) in millionths, rounded, for k in 1..LGMAX.              *)
(* The table is a constant of mathematics; Num.tla re-checks it (values at *)
(* powers of two, monotonicity, additivity over products) at start-up.     *)
(***************************************************************************)
LGMAX == 2048
LG == <<
    0, 1000000, 1584963, 2000000, 2321928, 2584963, 2807355, 3000000, 3169925, 3321928, 3459432, 3584963, 3700440, 3807355, 3906891, 4000000,
    4087463, 4169925, 4247928, 4321928, 4392317, 4459432, 4523562, 4584963, 4643856, 4700440, 4754888, 4807355, 4857981, 4906891, 4954196, 5000000,
    5044394, 5087463, 5129283, 5169925, 5209453, 5247928, 5285402, 5321928, 5357552, 5392317, 5426265, 5459432, 5491853, 5523562, 5554589, 5584963,
    5614710, 5643856, 5672425, 5700440, 5727920, 5754888, 5781360, 5807355, 5832890, 5857981, 5882643, 5906891, 5930737, 5954196, 5977280, 6000000,
    6022368, 6044394, 6066089, 6087463, 6108524, 6129283, 6149747, 6169925, 6189825, 6209453, 6228819, 6247928, 6266787, 6285402, 6303781, 6321928,
    6339850, 6357552, 6375039, 6392317, 6409391, 6426265, 6442943, 6459432, 6475733, 6491853, 6507795, 6523562, 6539159, 6554589, 6569856, 6584963,
    6599913, 6614710, 6629357, 6643856, 6658211, 6672425, 6686501, 6700440, 6714246, 6727920, 6741467, 6754888, 6768184, 6781360, 6794416, 6807355,
    6820179, 6832890, 6845490, 6857981, 6870365, 6882643, 6894818, 6906891, 6918863, 6930737, 6942515, 6954196, 6965784, 6977280, 6988685, 7000000,
    7011227, 7022368, 7033423, 7044394, 7055282, 7066089, 7076816, 7087463, 7098032, 7108524, 7118941, 7129283, 7139551, 7149747, 7159871, 7169925,
    7179909, 7189825, 7199672, 7209453, 7219169, 7228819, 7238405, 7247928, 7257388, 7266787, 7276124, 7285402, 7294621, 7303781, 7312883, 7321928,
    7330917, 7339850, 7348728, 7357552, 7366322, 7375039, 7383704, 7392317, 7400879, 7409391, 7417853, 7426265, 7434628, 7442943, 7451211, 7459432,
    7467606, 7475733, 7483816, 7491853, 7499846, 7507795, 7515700, 7523562, 7531381, 7539159, 7546894, 7554589, 7562242, 7569856, 7577429, 7584963,
    7592457, 7599913, 7607330, 7614710, 7622052, 7629357, 7636625, 7643856, 7651052, 7658211, 7665336, 7672425, 7679480, 7686501, 7693487, 7700440,
    7707359, 7714246, 7721099, 7727920, 7734710, 7741467, 7748193, 7754888, 7761551, 7768184, 7774787, 7781360, 7787903, 7794416, 7800900, 7807355,
    7813781, 7820179, 7826548, 7832890, 7839204, 7845490, 7851749, 7857981, 7864186, 7870365, 7876517, 7882643, 7888743, 7894818, 7900867, 7906891,
    7912889, 7918863, 7924813, 7930737, 7936638, 7942515, 7948367, 7954196, 7960002, 7965784, 7971544, 7977280, 7982994, 7988685, 7994353, 8000000,
    8005625, 8011227, 8016808, 8022368, 8027906, 8033423, 8038919, 8044394, 8049849, 8055282, 8060696, 8066089, 8071462, 8076816, 8082149, 8087463,
    8092757, 8098032, 8103288, 8108524, 8113742, 8118941, 8124121, 8129283, 8134426, 8139551, 8144658, 8149747, 8154818, 8159871, 8164907, 8169925,
    8174926, 8179909, 8184875, 8189825, 8194757, 8199672, 8204571, 8209453, 8214319, 8219169, 8224002, 8228819, 8233620, 8238405, 8243174, 8247928,
    8252665, 8257388, 8262095, 8266787, 8271463, 8276124, 8280771, 8285402, 8290019, 8294621, 8299208, 8303781, 8308339, 8312883, 8317413, 8321928,
    8326429, 8330917, 8335390, 8339850, 8344296, 8348728, 8353147, 8357552, 8361944, 8366322, 8370687, 8375039, 8379378, 8383704, 8388017, 8392317,
    8396605, 8400879, 8405141, 8409391, 8413628, 8417853, 8422065, 8426265, 8430453, 8434628, 8438792, 8442943, 8447083, 8451211, 8455327, 8459432,
    8463524, 8467606, 8471675, 8475733, 8479780, 8483816, 8487840, 8491853, 8495855, 8499846, 8503826, 8507795, 8511753, 8515700, 8519636, 8523562,
    8527477, 8531381, 8535275, 8539159, 8543032, 8546894, 8550747, 8554589, 8558421, 8562242, 8566054, 8569856, 8573647, 8577429, 8581201, 8584963,
    8588715, 8592457, 8596190, 8599913, 8603626, 8607330, 8611025, 8614710, 8618386, 8622052, 8625709, 8629357, 8632995, 8636625, 8640245, 8643856,
    8647458, 8651052, 8654636, 8658211, 8661778, 8665336, 8668885, 8672425, 8675957, 8679480, 8682995, 8686501, 8689998, 8693487, 8696968, 8700440,
    8703904, 8707359, 8710806, 8714246, 8717676, 8721099, 8724514, 8727920, 8731319, 8734710, 8738092, 8741467, 8744834, 8748193, 8751544, 8754888,
    8758223, 8761551, 8764872, 8768184, 8771489, 8774787, 8778077, 8781360, 8784635, 8787903, 8791163, 8794416, 8797662, 8800900, 8804131, 8807355,
    8810572, 8813781, 8816984, 8820179, 8823367, 8826548, 8829723, 8832890, 8836050, 8839204, 8842350, 8845490, 8848623, 8851749, 8854868, 8857981,
    8861087, 8864186, 8867279, 8870365, 8873444, 8876517, 8879583, 8882643, 8885696, 8888743, 8891784, 8894818, 8897845, 8900867, 8903882, 8906891,
    8909893, 8912889, 8915879, 8918863, 8921841, 8924813, 8927778, 8930737, 8933691, 8936638, 8939579, 8942515, 8945444, 8948367, 8951285, 8954196,
    8957102, 8960002, 8962896, 8965784, 8968667, 8971544, 8974415, 8977280, 8980140, 8982994, 8985842, 8988685, 8991522, 8994353, 8997179, 9000000,
    9002815, 9005625, 9008429, 9011227, 9014020, 9016808, 9019591, 9022368, 9025140, 9027906, 9030667, 9033423, 9036174, 9038919, 9041659, 9044394,
    9047124, 9049849, 9052568, 9055282, 9057992, 9060696, 9063395, 9066089, 9068778, 9071462, 9074141, 9076816, 9079485, 9082149, 9084808, 9087463,
    9090112, 9092757, 9095397, 9098032, 9100662, 9103288, 9105909, 9108524, 9111136, 9113742, 9116344, 9118941, 9121534, 9124121, 9126704, 9129283,
    9131857, 9134426, 9136991, 9139551, 9142107, 9144658, 9147205, 9149747, 9152285, 9154818, 9157347, 9159871, 9162391, 9164907, 9167418, 9169925,
    9172428, 9174926, 9177420, 9179909, 9182394, 9184875, 9187352, 9189825, 9192293, 9194757, 9197217, 9199672, 9202124, 9204571, 9207014, 9209453,
    9211888, 9214319, 9216746, 9219169, 9221587, 9224002, 9226412, 9228819, 9231221, 9233620, 9236014, 9238405, 9240791, 9243174, 9245553, 9247928,
    9250298, 9252665, 9255029, 9257388, 9259743, 9262095, 9264443, 9266787, 9269127, 9271463, 9273796, 9276124, 9278449, 9280771, 9283088, 9285402,
    9287712, 9290019, 9292322, 9294621, 9296916, 9299208, 9301496, 9303781, 9306062, 9308339, 9310613, 9312883, 9315150, 9317413, 9319672, 9321928,
    9324181, 9326429, 9328675, 9330917, 9333155, 9335390, 9337622, 9339850, 9342075, 9344296, 9346514, 9348728, 9350939, 9353147, 9355351, 9357552,
    9359750, 9361944, 9364135, 9366322, 9368506, 9370687, 9372865, 9375039, 9377211, 9379378, 9381543, 9383704, 9385862, 9388017, 9390169, 9392317,
    9394463, 9396605, 9398744, 9400879, 9403012, 9405141, 9407268, 9409391, 9411511, 9413628, 9415742, 9417853, 9419960, 9422065, 9424166, 9426265,
    9428360, 9430453, 9432542, 9434628, 9436712, 9438792, 9440869, 9442943, 9445015, 9447083, 9449149, 9451211, 9453271, 9455327, 9457381, 9459432,
    9461479, 9463524, 9465566, 9467606, 9469642, 9471675, 9473706, 9475733, 9477758, 9479780, 9481799, 9483816, 9485829, 9487840, 9489848, 9491853,
    9493855, 9495855, 9497852, 9499846, 9501837, 9503826, 9505812, 9507795, 9509775, 9511753, 9513728, 9515700, 9517669, 9519636, 9521600, 9523562,
    9525521, 9527477, 9529431, 9531381, 9533330, 9535275, 9537218, 9539159, 9541097, 9543032, 9544964, 9546894, 9548822, 9550747, 9552669, 9554589,
    9556506, 9558421, 9560333, 9562242, 9564149, 9566054, 9567956, 9569856, 9571753, 9573647, 9575539, 9577429, 9579316, 9581201, 9583083, 9584963,
    9586840, 9588715, 9590587, 9592457, 9594325, 9596190, 9598053, 9599913, 9601771, 9603626, 9605480, 9607330, 9609179, 9611025, 9612868, 9614710,
    9616549, 9618386, 9620220, 9622052, 9623881, 9625709, 9627534, 9629357, 9631177, 9632995, 9634811, 9636625, 9638436, 9640245, 9642052, 9643856,
    9645658, 9647458, 9649256, 9651052, 9652845, 9654636, 9656425, 9658211, 9659996, 9661778, 9663558, 9665336, 9667112, 9668885, 9670656, 9672425,
    9674192, 9675957, 9677720, 9679480, 9681238, 9682995, 9684749, 9686501, 9688250, 9689998, 9691744, 9693487, 9695228, 9696968, 9698705, 9700440,
    9702173, 9703904, 9705632, 9707359, 9709084, 9710806, 9712527, 9714246, 9715962, 9717676, 9719389, 9721099, 9722808, 9724514, 9726218, 9727920,
    9729621, 9731319, 9733015, 9734710, 9736402, 9738092, 9739781, 9741467, 9743151, 9744834, 9746514, 9748193, 9749869, 9751544, 9753217, 9754888,
    9756556, 9758223, 9759888, 9761551, 9763212, 9764872, 9766529, 9768184, 9769838, 9771489, 9773139, 9774787, 9776433, 9778077, 9779719, 9781360,
    9782998, 9784635, 9786270, 9787903, 9789534, 9791163, 9792790, 9794416, 9796040, 9797662, 9799282, 9800900, 9802516, 9804131, 9805744, 9807355,
    9808964, 9810572, 9812177, 9813781, 9815383, 9816984, 9818582, 9820179, 9821774, 9823367, 9824959, 9826548, 9828136, 9829723, 9831307, 9832890,
    9834471, 9836050, 9837628, 9839204, 9840778, 9842350, 9843921, 9845490, 9847057, 9848623, 9850187, 9851749, 9853310, 9854868, 9856426, 9857981,
    9859535, 9861087, 9862637, 9864186, 9865733, 9867279, 9868823, 9870365, 9871905, 9873444, 9874981, 9876517, 9878051, 9879583, 9881114, 9882643,
    9884171, 9885696, 9887221, 9888743, 9890264, 9891784, 9893302, 9894818, 9896332, 9897845, 9899357, 9900867, 9902375, 9903882, 9905387, 9906891,
    9908393, 9909893, 9911392, 9912889, 9914385, 9915879, 9917372, 9918863, 9920353, 9921841, 9923327, 9924813, 9926296, 9927778, 9929258, 9930737,
    9932215, 9933691, 9935165, 9936638, 9938109, 9939579, 9941048, 9942515, 9943980, 9945444, 9946906, 9948367, 9949827, 9951285, 9952741, 9954196,
    9955650, 9957102, 9958553, 9960002, 9961450, 9962896, 9964341, 9965784, 9967226, 9968667, 9970106, 9971544, 9972980, 9974415, 9975848, 9977280,
    9978710, 9980140, 9981567, 9982994, 9984418, 9985842, 9987264, 9988685, 9990104, 9991522, 9992938, 9994353, 9995767, 9997179, 9998590, 10000000,
    10001408, 10002815, 10004220, 10005625, 10007027, 10008429, 10009829, 10011227, 10012625, 10014020, 10015415, 10016808, 10018200, 10019591, 10020980, 10022368,
    10023754, 10025140, 10026523, 10027906, 10029287, 10030667, 10032046, 10033423, 10034799, 10036174, 10037547, 10038919, 10040290, 10041659, 10043027, 10044394,
    10045760, 10047124, 10048487, 10049849, 10051209, 10052568, 10053926, 10055282, 10056638, 10057992, 10059344, 10060696, 10062046, 10063395, 10064743, 10066089,
    10067434, 10068778, 10070121, 10071462, 10072803, 10074141, 10075479, 10076816, 10078151, 10079485, 10080818, 10082149, 10083479, 10084808, 10086136, 10087463,
    10088788, 10090112, 10091435, 10092757, 10094078, 10095397, 10096715, 10098032, 10099348, 10100662, 10101976, 10103288, 10104599, 10105909, 10107217, 10108524,
    10109831, 10111136, 10112440, 10113742, 10115044, 10116344, 10117643, 10118941, 10120238, 10121534, 10122828, 10124121, 10125413, 10126704, 10127994, 10129283,
    10130571, 10131857, 10133142, 10134426, 10135709, 10136991, 10138272, 10139551, 10140830, 10142107, 10143383, 10144658, 10145932, 10147205, 10148477, 10149747,
    10151017, 10152285, 10153552, 10154818, 10156083, 10157347, 10158610, 10159871, 10161132, 10162391, 10163650, 10164907, 10166163, 10167418, 10168672, 10169925,
    10171177, 10172428, 10173677, 10174926, 10176173, 10177420, 10178665, 10179909, 10181152, 10182394, 10183635, 10184875, 10186114, 10187352, 10188589, 10189825,
    10191059, 10192293, 10193525, 10194757, 10195987, 10197217, 10198445, 10199672, 10200899, 10202124, 10203348, 10204571, 10205793, 10207014, 10208234, 10209453,
    10210671, 10211888, 10213104, 10214319, 10215533, 10216746, 10217958, 10219169, 10220378, 10221587, 10222795, 10224002, 10225207, 10226412, 10227616, 10228819,
    10230020, 10231221, 10232421, 10233620, 10234817, 10236014, 10237210, 10238405, 10239599, 10240791, 10241983, 10243174, 10244364, 10245553, 10246741, 10247928,
    10249113, 10250298, 10251482, 10252665, 10253847, 10255029, 10256209, 10257388, 10258566, 10259743, 10260920, 10262095, 10263269, 10264443, 10265615, 10266787,
    10267957, 10269127, 10270295, 10271463, 10272630, 10273796, 10274960, 10276124, 10277287, 10278449, 10279611, 10280771, 10281930, 10283088, 10284246, 10285402,
    10286558, 10287712, 10288866, 10290019, 10291171, 10292322, 10293472, 10294621, 10295769, 10296916, 10298063, 10299208, 10300353, 10301496, 10302639, 10303781,
    10304922, 10306062, 10307201, 10308339, 10309476, 10310613, 10311748, 10312883, 10314017, 10315150, 10316282, 10317413, 10318543, 10319672, 10320801, 10321928,
    10323055, 10324181, 10325305, 10326429, 10327553, 10328675, 10329796, 10330917, 10332037, 10333155, 10334273, 10335390, 10336507, 10337622, 10338736, 10339850,
    10340963, 10342075, 10343186, 10344296, 10345405, 10346514, 10347621, 10348728, 10349834, 10350939, 10352043, 10353147, 10354249, 10355351, 10356452, 10357552,
    10358651, 10359750, 10360847, 10361944, 10363040, 10364135, 10365229, 10366322, 10367415, 10368506, 10369597, 10370687, 10371777, 10372865, 10373953, 10375039,
    10376125, 10377211, 10378295, 10379378, 10380461, 10381543, 10382624, 10383704, 10384784, 10385862, 10386940, 10388017, 10389094, 10390169, 10391244, 10392317,
    10393390, 10394463, 10395534, 10396605, 10397675, 10398744, 10399812, 10400879, 10401946, 10403012, 10404077, 10405141, 10406205, 10407268, 10408330, 10409391,
    10410451, 10411511, 10412570, 10413628, 10414685, 10415742, 10416798, 10417853, 10418907, 10419960, 10421013, 10422065, 10423116, 10424166, 10425216, 10426265,
    10427313, 10428360, 10429407, 10430453, 10431498, 10432542, 10433585, 10434628, 10435670, 10436712, 10437752, 10438792, 10439831, 10440869, 10441907, 10442943,
    10443980, 10445015, 10446049, 10447083, 10448116, 10449149, 10450180, 10451211, 10452241, 10453271, 10454299, 10455327, 10456354, 10457381, 10458407, 10459432,
    10460456, 10461479, 10462502, 10463524, 10464546, 10465566, 10466586, 10467606, 10468624, 10469642, 10470659, 10471675, 10472691, 10473706, 10474720, 10475733,
    10476746, 10477758, 10478770, 10479780, 10480790, 10481799, 10482808, 10483816, 10484823, 10485829, 10486835, 10487840, 10488844, 10489848, 10490851, 10491853,
    10492855, 10493855, 10494856, 10495855, 10496854, 10497852, 10498849, 10499846, 10500842, 10501837, 10502832, 10503826, 10504819, 10505812, 10506803, 10507795,
    10508785, 10509775, 10510764, 10511753, 10512740, 10513728, 10514714, 10515700, 10516685, 10517669, 10518653, 10519636, 10520619, 10521600, 10522582, 10523562,
    10524542, 10525521, 10526499, 10527477, 10528454, 10529431, 10530406, 10531381, 10532356, 10533330, 10534303, 10535275, 10536247, 10537218, 10538189, 10539159,
    10540128, 10541097, 10542065, 10543032, 10543998, 10544964, 10545930, 10546894, 10547859, 10548822, 10549785, 10550747, 10551708, 10552669, 10553629, 10554589,
    10555548, 10556506, 10557464, 10558421, 10559377, 10560333, 10561288, 10562242, 10563196, 10564149, 10565102, 10566054, 10567005, 10567956, 10568906, 10569856,
    10570804, 10571753, 10572700, 10573647, 10574594, 10575539, 10576484, 10577429, 10578373, 10579316, 10580259, 10581201, 10582142, 10583083, 10584023, 10584963,
    10585901, 10586840, 10587778, 10588715, 10589651, 10590587, 10591522, 10592457, 10593391, 10594325, 10595257, 10596190, 10597121, 10598053, 10598983, 10599913,
    10600842, 10601771, 10602699, 10603626, 10604553, 10605480, 10606405, 10607330, 10608255, 10609179, 10610102, 10611025, 10611947, 10612868, 10613789, 10614710,
    10615630, 10616549, 10617467, 10618386, 10619303, 10620220, 10621136, 10622052, 10622967, 10623881, 10624795, 10625709, 10626622, 10627534, 10628446, 10629357,
    10630267, 10631177, 10632086, 10632995, 10633903, 10634811, 10635718, 10636625, 10637531, 10638436, 10639341, 10640245, 10641149, 10642052, 10642954, 10643856,
    10644758, 10645658, 10646559, 10647458, 10648358, 10649256, 10650154, 10651052, 10651949, 10652845, 10653741, 10654636, 10655531, 10656425, 10657318, 10658211,
    10659104, 10659996, 10660887, 10661778, 10662668, 10663558, 10664447, 10665336, 10666224, 10667112, 10667999, 10668885, 10669771, 10670656, 10671541, 10672425,
    10673309, 10674192, 10675075, 10675957, 10676839, 10677720, 10678600, 10679480, 10680360, 10681238, 10682117, 10682995, 10683872, 10684749, 10685625, 10686501,
    10687376, 10688250, 10689124, 10689998, 10690871, 10691744, 10692616, 10693487, 10694358, 10695228, 10696098, 10696968, 10697836, 10698705, 10699572, 10700440,
    10701306, 10702173, 10703038, 10703904, 10704768, 10705632, 10706496, 10707359, 10708222, 10709084, 10709945, 10710806, 10711667, 10712527, 10713387, 10714246,
    10715104, 10715962, 10716819, 10717676, 10718533, 10719389, 10720244, 10721099, 10721954, 10722808, 10723661, 10724514, 10725366, 10726218, 10727070, 10727920,
    10728771, 10729621, 10730470, 10731319, 10732167, 10733015, 10733863, 10734710, 10735556, 10736402, 10737247, 10738092, 10738937, 10739781, 10740624, 10741467,
    10742309, 10743151, 10743993, 10744834, 10745674, 10746514, 10747354, 10748193, 10749031, 10749869, 10750707, 10751544, 10752381, 10753217, 10754052, 10754888,
    10755722, 10756556, 10757390, 10758223, 10759056, 10759888, 10760720, 10761551, 10762382, 10763212, 10764042, 10764872, 10765700, 10766529, 10767357, 10768184,
    10769011, 10769838, 10770664, 10771489, 10772315, 10773139, 10773963, 10774787, 10775610, 10776433, 10777255, 10778077, 10778898, 10779719, 10780540, 10781360,
    10782179, 10782998, 10783817, 10784635, 10785452, 10786270, 10787086, 10787903, 10788718, 10789534, 10790348, 10791163, 10791977, 10792790, 10793603, 10794416,
    10795228, 10796040, 10796851, 10797662, 10798472, 10799282, 10800091, 10800900, 10801708, 10802516, 10803324, 10804131, 10804938, 10805744, 10806550, 10807355,
    10808160, 10808964, 10809768, 10810572, 10811375, 10812177, 10812979, 10813781, 10814582, 10815383, 10816184, 10816984, 10817783, 10818582, 10819381, 10820179,
    10820977, 10821774, 10822571, 10823367, 10824163, 10824959, 10825754, 10826548, 10827343, 10828136, 10828930, 10829723, 10830515, 10831307, 10832099, 10832890,
    10833681, 10834471, 10835261, 10836050, 10836839, 10837628, 10838416, 10839204, 10839991, 10840778, 10841564, 10842350, 10843136, 10843921, 10844706, 10845490,
    10846274, 10847057, 10847840, 10848623, 10849405, 10850187, 10850968, 10851749, 10852530, 10853310, 10854089, 10854868, 10855647, 10856426, 10857203, 10857981,
    10858758, 10859535, 10860311, 10861087, 10861862, 10862637, 10863412, 10864186, 10864960, 10865733, 10866506, 10867279, 10868051, 10868823, 10869594, 10870365,
    10871135, 10871905, 10872675, 10873444, 10874213, 10874981, 10875749, 10876517, 10877284, 10878051, 10878817, 10879583, 10880349, 10881114, 10881879, 10882643,
    10883407, 10884171, 10884934, 10885696, 10886459, 10887221, 10887982, 10888743, 10889504, 10890264, 10891024, 10891784, 10892543, 10893302, 10894060, 10894818,
    10895575, 10896332, 10897089, 10897845, 10898601, 10899357, 10900112, 10900867, 10901621, 10902375, 10903129, 10903882, 10904635, 10905387, 10906139, 10906891,
    10907642, 10908393, 10909143, 10909893, 10910643, 10911392, 10912141, 10912889, 10913637, 10914385, 10915132, 10915879, 10916626, 10917372, 10918118, 10918863,
    10919608, 10920353, 10921097, 10921841, 10922584, 10923327, 10924070, 10924813, 10925554, 10926296, 10927037, 10927778, 10928518, 10929258, 10929998, 10930737,
    10931476, 10932215, 10932953, 10933691, 10934428, 10935165, 10935902, 10936638, 10937374, 10938109, 10938844, 10939579, 10940314, 10941048, 10941781, 10942515,
    10943247, 10943980, 10944712, 10945444, 10946175, 10946906, 10947637, 10948367, 10949097, 10949827, 10950556, 10951285, 10952013, 10952741, 10953469, 10954196,
    10954923, 10955650, 10956376, 10957102, 10957828, 10958553, 10959278, 10960002, 10960726, 10961450, 10962173, 10962896, 10963619, 10964341, 10965063, 10965784,
    10966505, 10967226, 10967947, 10968667, 10969387, 10970106, 10970825, 10971544, 10972262, 10972980, 10973697, 10974415, 10975131, 10975848, 10976564, 10977280,
    10977995, 10978710, 10979425, 10980140, 10980854, 10981567, 10982281, 10982994, 10983706, 10984418, 10985130, 10985842, 10986553, 10987264, 10987975, 10988685,
    10989394, 10990104, 10990813, 10991522, 10992230, 10992938, 10993646, 10994353, 10995060, 10995767, 10996473, 10997179, 10997885, 10998590, 10999295, 11000000
>>
==========================================================================
