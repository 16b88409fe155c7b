C = "boofcpp/src/boofcv/contour.cpp"
H = "boofcpp/src/boofcv/contour.h"
EDITS = [
    (C, '''    int32_t s = stride;
    offsets[0] = 1;      // x =  1 y =  0
    offsets[1] = 1 + s;  // x =  1 y =  1
    offsets[2] = s;      // x =  0 y =  1
    offsets[3] = -1 + s; // x = -1 y =  1
    offsets[4] = -1;     // x = -1 y =  0
    offsets[5] = -1 - s; // x = -1 y = -1
    offsets[6] = -s;     // x =  0 y = -1
    offsets[7] = 1 - s;  // x =  1 y = -1
''', '''    static const int dx[8] = {1, 1, 0, -1, -1, -1, 0, 1};
    static const int dy[8] = {0, 1, 1, 1, 0, -1, -1, -1};
    const int32_t s = static_cast<int32_t>(stride);
    for (int i = 0; i < 8; i++)
        offsets[i] = dx[i] + dy[i] * s;
'''),
    (C, '''    int32_t s = stride;
    offsets[0] = 1;   // x =  1 y =  0
    offsets[1] = s;   // x =  0 y =  1
    offsets[2] = -1;  // x = -1 y =  0
    offsets[3] = -s;  // x =  0 y = -1
''', '''    int32_t s = stride;
    offsets[2] = -(offsets[0] = 1);
    offsets[3] = -(offsets[1] = s);
'''),
    (C, '''    uint32_t initialDir;
    if (rule == ConnectRule::EIGHT)
        initialDir = external ? 7 : 3;
    else
        initialDir = external ? 0 : 2;

    this->label = label;
    this->dir = initialDir;
    x = initialX;
    y = initialY;
''', '''    x = initialX;
    y = initialY;
    this->label = label;

    uint32_t initialDir = startDirection(external);
    dir = initialDir;
'''),
    (C, '''/**
 *
 * @param label
 * @param initialX''', '''uint32_t ContourTracer::startDirection(bool external) const {
    switch (rule) {
        case ConnectRule::EIGHT:
            return external ? 7u : 3u;
        default:
            return external ? 0u : 2u;
    }
}

/**
 *
 * @param label
 * @param initialX'''),
    (H, '''        bool searchBlack4();
''', '''        uint32_t startDirection( bool external ) const;

        void advance();

        bool searchBlack4();
'''),
    (C, '''    if (!searchBlack()) {
        return;
    } else {
        initialDir = dir;
        moveToNext();
        dir = nextDirection[dir];
    }

    for (;;) {
        // search in clockwise direction around the current pixel for next black pixel
        searchBlack();
        if (x == initialX && y == initialY && dir == initialDir) {
            // returned to the initial state again. search is finished
            return;
        } else {
            add(x, y);
            moveToNext();
            dir = nextDirection[dir];
        }
    }
''', '''    if (!searchBlack())
        return;

    initialDir = dir;
    advance();
    searchBlack();

    while (!(dir == initialDir && y == initialY && x == initialX)) {
        add(x, y);
        advance();
        searchBlack();
    }
'''),
    (C, '''bool ContourTracer::searchBlack4() {
    uint8_t *binary_ptr = &binary->data[indexBinary];

    if (checkBlack(binary_ptr[offsetsBinary[dir]]))
        return true;
    dir = (dir + 1) % 4;
    if (checkBlack(binary_ptr[offsetsBinary[dir]]))
        return true;
    dir = (dir + 1) % 4;
    if (checkBlack(binary_ptr[offsetsBinary[dir]]))
        return true;
    dir = (dir + 1) % 4;
    if (checkBlack(binary_ptr[offsetsBinary[dir]]))
        return true;
    dir = (dir + 1) % 4;
    return false;
}
''', '''void ContourTracer::advance() {
    moveToNext();
    dir = nextDirection[dir];
}

bool ContourTracer::searchBlack4() {
    uint8_t *binary_ptr = &binary->data[indexBinary];

    for (int i = 0; i < 4; i++) {
        if (checkBlack(binary_ptr[offsetsBinary[dir]]))
            return true;
        dir = (dir + 1) & 3;
    }
    return false;
}
'''),
    (C, '''    if (pixel == 1) {
        return true;
    } else {
        // mark white pixels to avoid retracing this contour in the future
        pixel = 255;
        return false;
    }
''', '''    const bool black = pixel == 1;
    // mark white pixels to avoid retracing this contour in the future
    if (!black)
        pixel = std::numeric_limits<uint8_t>::max();
    return black;
'''),
    (C, '''    indexBinary += offsetsBinary[dir];
    indexLabel += offsetsLabeled[dir];
    // compute the new pixel coordinate from the binary pixel index
    uint32_t a = indexBinary - binary->offset;
    x = a % binary->stride;
    y = a / binary->stride;
''', '''    indexLabel += offsetsLabeled[dir];
    indexBinary += offsetsBinary[dir];
    // compute the new pixel coordinate from the binary pixel index
    const uint32_t stride = binary->stride;
    const uint32_t a = indexBinary - binary->offset;
    y = a / stride;
    x = a - y * stride;
'''),
    (C, '''    labeled->data[indexLabel] = label;
    if (storagePoints->size_of_tail() < maxContourSize) {
        storagePoints->push_tail(Point2D<S32>(x - 1, y - 1));
    }
''', '''    const bool room = storagePoints->size_of_tail() < maxContourSize;
    if (room) {
        Point2D<S32> p(x - 1, y - 1);
        storagePoints->push_tail(p);
    }
    labeled->data[indexLabel] = label;
'''),
    (C, '''    if( border.width != binary.width+2 || border.height != binary.height+2)  {
        border.reshape(binary.width + 2, binary.height + 2);
        ImageMiscOps::fill_border(border, (U8)0, 1);
    }
    border.makeSubimage(1,1,border.width-1,border.height-1).copy(binary);
''', '''    const uint32_t paddedWidth = binary.width+2;
    const uint32_t paddedHeight = binary.height+2;
    if( !(border.width == paddedWidth && border.height == paddedHeight) )  {
        border.reshape(paddedWidth, paddedHeight);
        ImageMiscOps::fill(border, (U8)0);
    }
    Gray<U8> inner = border.makeSubimage(1,1,paddedWidth-1,paddedHeight-1);
    inner.copy(binary);
'''),
    (C, '''    packedPoints.clear();
    contours.clear();

    tracer = rule == ConnectRule::FOUR ? &tracer4 : &tracer8;
''', '''    contours.clear();
    packedPoints.clear();

    if( rule == ConnectRule::FOUR )
        tracer = &tracer4;
    else
        tracer = &tracer8;
'''),
    (C, '''        for( x = 1; x < enxX; x++ , indexIn++ , indexOut++) {
            U8 bit = border.data[indexIn];

            // white pixels are ignored
            if( bit != 1 )
                continue;

            auto label''', '''        for( x = 1; x < enxX; x++ , indexIn++ , indexOut++) {
            // white pixels are ignored
            if( border.data[indexIn] != 1 )
                continue;

            auto label'''),
    (C, '''    // Keep track that this was a contour, but free up all the points used in defining it
    if( packedPoints.size_of_tail() >= maxContourSize || packedPoints.size_of_tail() < minContourSize ) {
        packedPoints.remove_tail();
        packedPoints.start_new_set();
    }
}
''', '''    discardBySize();
}

/** Keep track that this was a contour, but free up all the points used in defining it */
void LinearContourLabelChang2004::discardBySize() {
    uint32_t found = packedPoints.size_of_tail();
    if( found >= minContourSize && found < maxContourSize )
        return;
    packedPoints.remove_tail();
    packedPoints.start_new_set();
}
'''),
    (C, '''    // See if the inner contour exceeded the maximum  or minimum size. If so free its points
    if( packedPoints.size_of_tail() >= maxContourSize || packedPoints.size_of_tail() < minContourSize ) {
        packedPoints.remove_tail();
        packedPoints.start_new_set();
    }
''', '''    discardBySize();
'''),
    (H, '''        void handleStep1();
''', '''        void handleStep1();

        void discardBySize();
'''),
    (C, '''    contours.push_back(ContourPacked());
    ContourPacked &c = contours.back();
    c.id = static_cast<uint32_t>(contours.size());
    tracer->setMaxContourSize(maxContourSize);
    // save the set index for this contour and declare memory for it
    c.externalIndex = packedPoints.number_of_sets();
    packedPoints.start_new_set();
    c.internalIndexes.clear();
    tracer->trace(c.id,x,y,true);
''', '''    const uint32_t index = static_cast<uint32_t>(contours.size());
    contours.emplace_back();
    ContourPacked &c = contours[index];
    c.externalIndex = packedPoints.number_of_sets();
    c.id = index + 1;
    // save the set index for this contour and declare memory for it
    packedPoints.start_new_set();
    tracer->setMaxContourSize(maxContourSize);
    tracer->trace(c.id,x,y,true);
'''),
    (C, '''    ContourPacked& c = contours.at(label-1);
    c.internalIndexes.push_back( (uint32_t)packedPoints.set_info.size() );
    packedPoints.start_new_set();
    tracer->setMaxContourSize(saveInternalContours?maxContourSize:0);
''', '''    std::vector<uint32_t>& inner = contours.at(label-1).internalIndexes;
    inner.push_back( packedPoints.number_of_sets() );
    packedPoints.start_new_set();
    if( saveInternalContours )
        tracer->setMaxContourSize(maxContourSize);
    else
        tracer->setMaxContourSize(0);
'''),
    (C, '''    if( labeled.data[indexOut] == 0 )
        labeled.data[indexOut] = labeled.data[indexOut-1];
''', '''    S32 *p = &labeled.data[indexOut];
    if( *p != 0 )
        return;
    *p = p[-1];
'''),
    (C, '''    delete[]offsetsBinary;
    delete[]offsetsLabeled;
    delete[]nextDirection;

    offsetsBinary = nullptr;
    offsetsLabeled = nullptr;
    nextDirection = nullptr;
''', '''    delete[]nextDirection;
    delete[]offsetsLabeled;
    delete[]offsetsBinary;
'''),
]
